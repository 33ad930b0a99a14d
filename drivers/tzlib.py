from base import *
from pycalendar.icalendar.calendar import Calendar
from pycalendar.timezonedb import TimezoneDatabase


def load(text):
    cal = Calendar.parseText(str(text))
    return cal, cal.getTimezone("X/zone")


def item(dt):
    return [num(dt.getYear()), num(dt.getMonth()), num(dt.getDay()), num(dt.getHours()), num(dt.getMinutes()), num(dt.getSeconds())]
