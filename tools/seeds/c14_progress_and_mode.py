PROPERTY='C14'
FILE='skdecide/builders/scheduling/task_duration.py'
EDITS=[("            self.sampled_durations[task][mode][progress_from] = self._sample_task_duration(task, mode, progress_from)","            self.sampled_durations[task][mode][progress_from] = self._sample_task_duration(task, mode, progress_from)\n            self.sampled_durations[task].setdefault(1, {}).setdefault(progress_from, self.sampled_durations[task][mode][progress_from])")]
NEEDS='a duration sampled in the second mode of a task before one in the first mode'
BREAKS='the duration sampled for a mode is given for another mode'
DEMO='''
from skdecide.builders.scheduling.task_duration import SimulatedTaskDuration
class D(SimulatedTaskDuration):
    sampled_durations = {}
    def _sample_task_duration(self, task, mode=1, progress_from=0.):
        return 10 * task + mode
d = D()
assert [d.sample_task_duration(3, m) for m in (2, 1, 2, 3)] == [32, 31, 32, 33]
assert d.get_latest_sampled_duration(3, 1) == 31
'''
