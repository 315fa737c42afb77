------------------------------ MODULE FormatMC ------------------------------
EXTENDS Page, Json
VARIABLE x
Init == x = 0
Next == UNCHANGED x
Emit == PrintT("@" \o ToJson(Formats))
=============================================================================
