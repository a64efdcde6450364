PROPERTY='C15'
FILE='skdecide/hub/domain/mastermind/mastermind.py'
EDITS=[("if guess[i] == solution[j] and not bulls[j] and not cows[j]:", "if guess[i] == solution[j] and not bulls[j]:\n                        if cows[j] and i != len(guess) - 1:\n                            break")]
NEEDS='guesses with a misplaced colour twice, the second one after a position already counted while another one is free'
BREAKS='a misplaced colour of the hidden row which occurs twice is counted once'
DEMO='''
from skdecide.hub.domain.mastermind.mastermind import MasterMind, State, Score
m = MasterMind(3, 4)
s = m._calc_score(State((1, 1, 0, 2), Score(0, 0)), (0, 2, 1, 1))
assert tuple(s) == (0, 4), s
s = m._calc_score(State((1, 1, 2, 2), Score(0, 0)), (0, 2, 1, 1))
assert tuple(s) == (0, 3), s
'''
