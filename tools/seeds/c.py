P="src/pycalendar/"
R=P+"icalendar/recurrence.py"
S=[
dict(id="p08-copy-live-list", prop="P08", file=R,
 edits=[("            other.mRecurrences = self.mRecurrences[:]","            other.mRecurrences = self.mRecurrences if self.mFullyCached else self.mRecurrences[:-1]")],
 demo='''
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.datetime import DateTime
from pycalendar.period import Period
def q(r, d):
    l = []
    r.expand(DateTime(2020, 1, 1, 0, 0, 0), Period(DateTime(2020, 1, 1, 0, 0, 0), DateTime(2020, 1, d, 0, 0, 0)), l)
    return len(l)
r = Recurrence()
r.parse("FREQ=DAILY")
assert q(r, 10) == 9
c = r.duplicate()
assert q(c, 10) == 9, q(c, 10)
''', needs="a copy of a partly expanded rule asked for the same range again", breaks="the copy misses the last cached instance"),
]
