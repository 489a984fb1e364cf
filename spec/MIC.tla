-------------------------------- MODULE MIC ---------------------------------
(* Market identifier codes (ISO 10383): the register's entries, read from    *)
(* mic.json, and the rules that tie them together.                           *)
EXTENDS ISOTables
Table == JsonDeserialize("mic.json")
Rows == DOMAIN Table
Mics == {Table[i].mic : i \in Rows}
ByMic == [m \in Mics |-> Table[CHOOSE i \in Rows : Table[i].mic = m]]
CountryCodes == {Countries[i][1] : i \in DOMAIN Countries} \cup {"ZZ"}        \* ZZ: no country
Rule(e) ==
  /\ e.kind \in {"Operating", "Segment"} /\ e.status \in {"Active", "Updated", "Expired"}
  /\ e.op \in Mics /\ e.country \in CountryCodes
  /\ (e.kind = "Operating") = (e.op = e.mic)            \* an operating code is its own operator, a segment has another
  /\ (e.status = "Active" => ByMic[e.op].kind = "Operating")
  /\ (ByMic[e.op].status = "Expired" => e.status = "Expired")
VARIABLES row
MInit == row \in Rows /\ q = ""
MSpec == MInit /\ [][UNCHANGED <<row, q>>]_<<row, q>>
Unique == Cardinality(Mics) = Len(Table)
Consistent == Rule(Table[row])
EmitRow == PrintT(ToJson(Table[row]))
=============================================================================
