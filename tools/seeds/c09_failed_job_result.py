PROPERTY='C09'
FILE='skdecide/domains.py'
EDITS=[("""        job = conn.recv()
        job_results[i] = None
        if job is None:
            if ipc_conn is not None:
                pusher.close()
            conn.close()
            break
        else:
            try:
                if isinstance""","""        job = conn.recv()
        if job is None:
            job_results[i] = None
            if ipc_conn is not None:
                pusher.close()
            conn.close()
            break
        else:
            try:
                if isinstance"""),
("""        self._waiting_jobs[i].recv()
        r = self._job_results[i]
        self._job_results[i] = None
""","""        self._waiting_jobs[i].recv()
        r = self._job_results[i]
""")]
NEEDS='a job that fails on a piped parallel domain after one that succeeded there'
BREAKS='fetching the result of the failed job gives the result of the previous one'
DEMO='''
from skdecide.domains import PipeParallelDomain
import time
class Dm:
    def ok(self): return 'done'
    def ko(self): raise ValueError('no')
def main():
    with PipeParallelDomain(Dm, nb_domains=1) as p:
        p.launch(0, 'ok')
        assert p.get_result(0) == 'done'
        p.launch(0, 'ko')
        assert p.get_result(0) is None
main()
'''
