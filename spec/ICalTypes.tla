------------------------------ MODULE ICalTypes ------------------------------
(* Written by tools/mktypes.py: names as octets; the default value type of each property (RFC 5545 3.8), value type names, list-valued properties. *)
EXTENDS TLC
N_ACTION == <<65,67,84,73,79,78>>
N_CALSCALE == <<67,65,76,83,67,65,76,69>>
N_DTSTART == <<68,84,83,84,65,82,84>>
N_EXRULE == <<69,88,82,85,76,69>>
N_GEO == <<71,69,79>>
N_POLL_ITEM_ID == <<80,79,76,76,45,73,84,69,77,45,73,68>>
N_RECURRENCE_ID == <<82,69,67,85,82,82,69,78,67,69,45,73,68>>
N_REQUEST_STATUS == <<82,69,81,85,69,83,84,45,83,84,65,84,85,83>>
N_RRULE == <<82,82,85,76,69>>
N_TRIGGER == <<84,82,73,71,71,69,82>>
N_TZID == <<84,90,73,68>>
N_UID == <<85,73,68>>
N_VALUE == <<86,65,76,85,69>>
N_VOTER == <<86,79,84,69,82>>
K_start == <<115,116,97,114,116>>
K_end == <<101,110,100>>
K_duration == <<100,117,114,97,116,105,111,110>>
K_latitude == <<108,97,116,105,116,117,100,101>>
K_longitude == <<108,111,110,103,105,116,117,100,101>>
K_code == <<99,111,100,101>>
K_description == <<100,101,115,99,114,105,112,116,105,111,110>>
K_data == <<100,97,116,97>>
K_unknown == <<117,110,107,110,111,119,110>>
K_text == <<116,101,120,116>>
K_float == <<102,108,111,97,116>>
K_freq == <<102,114,101,113>>
K_until == <<117,110,116,105,108>>
K_byday == <<98,121,100,97,121>>
K_wkst == <<119,107,115,116>>
K_interval == <<105,110,116,101,114,118,97,108>>
PTypes == {<<<<65,84,84,69,78,68,69,69>>, "CAL-ADDRESS">>, <<<<79,82,71,65,78,73,90,69,82>>, "CAL-ADDRESS">>, <<<<86,79,84,69,82>>, "CAL-ADDRESS">>, <<<<67,79,77,80,76,69,84,69,68>>, "DATE-TIME">>, <<<<68,84,69,78,68>>, "DATE-TIME">>, <<<<68,85,69>>, "DATE-TIME">>, <<<<68,84,83,84,65,82,84>>, "DATE-TIME">>, <<<<82,69,67,85,82,82,69,78,67,69,45,73,68>>, "DATE-TIME">>, <<<<69,88,68,65,84,69>>, "DATE-TIME">>, <<<<82,68,65,84,69>>, "DATE-TIME">>, <<<<67,82,69,65,84,69,68>>, "DATE-TIME">>, <<<<68,84,83,84,65,77,80>>, "DATE-TIME">>, <<<<76,65,83,84,45,77,79,68,73,70,73,69,68>>, "DATE-TIME">>, <<<<65,67,75,78,79,87,76,69,68,71,69,68>>, "DATE-TIME">>, <<<<88,45,77,85,76,66,69,82,82,89,45,76,65,83,84,45,84,82,73,71,71,69,82>>, "DATE-TIME">>, <<<<68,85,82,65,84,73,79,78>>, "DURATION">>, <<<<84,82,73,71,71,69,82>>, "DURATION">>, <<<<71,69,79>>, "FLOAT">>, <<<<80,69,82,67,69,78,84,45,67,79,77,80,76,69,84,69>>, "INTEGER">>, <<<<80,82,73,79,82,73,84,89>>, "INTEGER">>, <<<<82,69,80,69,65,84>>, "INTEGER">>, <<<<83,69,81,85,69,78,67,69>>, "INTEGER">>, <<<<80,79,76,76,45,73,84,69,77,45,73,68>>, "INTEGER">>, <<<<80,79,76,76,45,87,73,78,78,69,82>>, "INTEGER">>, <<<<82,69,83,80,79,78,83,69>>, "INTEGER">>, <<<<70,82,69,69,66,85,83,89>>, "PERIOD">>, <<<<82,82,85,76,69>>, "RECUR">>, <<<<69,88,82,85,76,69>>, "RECUR">>, <<<<67,65,76,83,67,65,76,69>>, "TEXT">>, <<<<77,69,84,72,79,68>>, "TEXT">>, <<<<80,82,79,68,73,68>>, "TEXT">>, <<<<86,69,82,83,73,79,78>>, "TEXT">>, <<<<67,65,84,69,71,79,82,73,69,83>>, "TEXT">>, <<<<67,76,65,83,83>>, "TEXT">>, <<<<67,79,77,77,69,78,84>>, "TEXT">>, <<<<68,69,83,67,82,73,80,84,73,79,78>>, "TEXT">>, <<<<76,79,67,65,84,73,79,78>>, "TEXT">>, <<<<82,69,83,79,85,82,67,69,83>>, "TEXT">>, <<<<83,84,65,84,85,83>>, "TEXT">>, <<<<83,85,77,77,65,82,89>>, "TEXT">>, <<<<84,82,65,78,83,80>>, "TEXT">>, <<<<84,90,73,68>>, "TEXT">>, <<<<84,90,78,65,77,69>>, "TEXT">>, <<<<67,79,78,84,65,67,84>>, "TEXT">>, <<<<82,69,76,65,84,69,68,45,84,79>>, "TEXT">>, <<<<85,73,68>>, "TEXT">>, <<<<65,67,84,73,79,78>>, "TEXT">>, <<<<82,69,81,85,69,83,84,45,83,84,65,84,85,83>>, "TEXT">>, <<<<65,67,67,69,80,84,45,82,69,83,80,79,78,83,69>>, "TEXT">>, <<<<80,79,76,76,45,67,79,77,80,76,69,84,73,79,78>>, "TEXT">>, <<<<80,79,76,76,45,77,79,68,69>>, "TEXT">>, <<<<80,79,76,76,45,80,82,79,80,69,82,84,73,69,83>>, "TEXT">>, <<<<88,45,87,82,45,67,65,76,78,65,77,69>>, "TEXT">>, <<<<88,45,87,82,45,67,65,76,68,69,83,67>>, "TEXT">>, <<<<88,45,87,82,45,65,76,65,82,77,85,73,68>>, "TEXT">>, <<<<88,45,77,85,76,66,69,82,82,89,45,83,80,69,65,75,45,84,69,88,84>>, "TEXT">>, <<<<88,45,77,85,76,66,69,82,82,89,45,65,76,65,82,77,45,83,84,65,84,85,83>>, "TEXT">>, <<<<65,84,84,65,67,72>>, "URI">>, <<<<84,90,85,82,76>>, "URI">>, <<<<85,82,76>>, "URI">>, <<<<84,90,79,70,70,83,69,84,70,82,79,77>>, "UTC-OFFSET">>, <<<<84,90,79,70,70,83,69,84,84,79>>, "UTC-OFFSET">>}
PNamesKnown == {p[1] : p \in PTypes}
PTypeOf == [n \in PNamesKnown |-> (CHOOSE p \in PTypes : p[1] = n)[2]]
VTypes == {<<<<66,73,78,65,82,89>>, "BINARY">>, <<<<66,79,79,76,69,65,78>>, "BOOLEAN">>, <<<<67,65,76,45,65,68,68,82,69,83,83>>, "CAL-ADDRESS">>, <<<<68,65,84,69>>, "DATE">>, <<<<68,65,84,69,45,84,73,77,69>>, "DATE-TIME">>, <<<<68,85,82,65,84,73,79,78>>, "DURATION">>, <<<<70,76,79,65,84>>, "FLOAT">>, <<<<73,78,84,69,71,69,82>>, "INTEGER">>, <<<<80,69,82,73,79,68>>, "PERIOD">>, <<<<82,69,67,85,82>>, "RECUR">>, <<<<84,69,88,84>>, "TEXT">>, <<<<84,73,77,69>>, "TIME">>, <<<<85,82,73>>, "URI">>, <<<<85,84,67,45,79,70,70,83,69,84>>, "UTC-OFFSET">>}
VNames == {p[1] : p \in VTypes}
VTypeOf == [n \in VNames |-> (CHOOSE p \in VTypes : p[1] = n)[2]]
NameOfV == [v \in {p[2] : p \in VTypes} |-> (CHOOSE p \in VTypes : p[2] = v)[1]]
ListProps == {<<67,65,84,69,71,79,82,73,69,83>>, <<82,69,83,79,85,82,67,69,83>>, <<70,82,69,69,66,85,83,89>>, <<69,88,68,65,84,69>>, <<82,68,65,84,69>>, <<80,79,76,76,45,80,82,79,80,69,82,84,73,69,83>>}
=============================================================================
