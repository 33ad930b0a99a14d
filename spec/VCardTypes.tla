------------------------------ MODULE VCardTypes ------------------------------
(* Written by tools/mktypes.py: names as octets; default value types of RFC 2426.  DATE stands for DATE and DATE-TIME, which the value itself tells apart. *)
EXTENDS TLC
V_VALUE == <<86,65,76,85,69>>
V_VERSION == <<86,69,82,83,73,79,78>>
V_N == <<78>>
V_ADR == <<65,68,82>>
V_ORG == <<79,82,71>>
V_NICKNAME == <<78,73,67,75,78,65,77,69>>
V_CATEGORIES == <<67,65,84,69,71,79,82,73,69,83>>
V_ENCODING == <<69,78,67,79,68,73,78,71>>
V_BASE64 == <<66,65,83,69,54,52>>
V_VCARD == <<86,67,65,82,68>>
V_30 == <<51,46,48>>
VPTypes == {<<<<80,72,79,84,79>>, "BINARY">>, <<<<76,79,71,79>>, "BINARY">>, <<<<83,79,85,78,68>>, "BINARY">>, <<<<75,69,89>>, "BINARY">>, <<<<66,68,65,89>>, "DATE">>, <<<<82,69,86>>, "DATE">>, <<<<71,69,79>>, "FLOAT">>, <<<<78,65,77,69>>, "TEXT">>, <<<<80,82,79,70,73,76,69>>, "TEXT">>, <<<<70,78>>, "TEXT">>, <<<<78>>, "TEXT">>, <<<<78,73,67,75,78,65,77,69>>, "TEXT">>, <<<<65,68,82>>, "TEXT">>, <<<<76,65,66,69,76>>, "TEXT">>, <<<<84,69,76>>, "TEXT">>, <<<<69,77,65,73,76>>, "TEXT">>, <<<<77,65,73,76,69,82>>, "TEXT">>, <<<<84,73,84,76,69>>, "TEXT">>, <<<<82,79,76,69>>, "TEXT">>, <<<<79,82,71>>, "TEXT">>, <<<<67,65,84,69,71,79,82,73,69,83>>, "TEXT">>, <<<<78,79,84,69>>, "TEXT">>, <<<<80,82,79,68,73,68>>, "TEXT">>, <<<<83,79,82,84,45,83,84,82,73,78,71>>, "TEXT">>, <<<<85,73,68>>, "TEXT">>, <<<<86,69,82,83,73,79,78>>, "TEXT">>, <<<<67,76,65,83,83>>, "TEXT">>, <<<<83,79,85,82,67,69>>, "URI">>, <<<<85,82,76>>, "URI">>, <<<<84,90>>, "UTC-OFFSET">>, <<<<65,71,69,78,84>>, "VCARD">>}
VPNames == {p[1] : p \in VPTypes}
VPTypeOf == [n \in VPNames |-> (CHOOSE p \in VPTypes : p[1] = n)[2]]
VVTypes == {<<<<66,73,78,65,82,89>>, "BINARY">>, <<<<66,79,79,76,69,65,78>>, "BOOLEAN">>, <<<<68,65,84,69>>, "DATE">>, <<<<68,65,84,69,45,84,73,77,69>>, "DATE">>, <<<<70,76,79,65,84>>, "FLOAT">>, <<<<73,78,84,69,71,69,82>>, "INTEGER">>, <<<<84,69,88,84>>, "TEXT">>, <<<<84,73,77,69>>, "TIME">>, <<<<85,82,73>>, "URI">>, <<<<86,67,65,82,68>>, "VCARD">>}
VVNames == {p[1] : p \in VVTypes}
VVTypeOf == [n \in VVNames |-> (CHOOSE p \in VVTypes : p[1] = n)[2]]
=============================================================================
