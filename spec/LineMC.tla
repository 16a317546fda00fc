------------------------------- MODULE LineMC -------------------------------
(* Every short line: reading and writing it again changes nothing.            *)
EXTENDS Wire, Json
CONSTANTS Size, Gen, Alphabet
VARIABLE bs
Bytes == IF Alphabet = 1 THEN {97, SP, COLON} ELSE {98, SP, COLON, CR, 233}
Init == bs = <<>>
Next == Len(bs) < Size /\ \E b \in Bytes : bs' = Append(bs, b) /\ IF Gen THEN PrintT(ToJson(bs')) ELSE TRUE
Spec == Init /\ [][Next]_bs
f == Form(bs)
\* command, arguments and origin survive, and so does the printed form
RoundTrip == ~f.none => Form(PrintForm(f)) = f /\ PrintForm(Form(PrintForm(f))) = PrintForm(f)
\* both ways to read a line agree
Agree == IF f.none THEN ReadLine(bs) = NoLine ELSE ReadLine(bs) = FormText(f)
\* nothing is lost: without a carriage return the printed line is the line, but for blanks behind the origin
Same1 == (~f.none /\ Pos(bs, {CR}) = 0) =>
            PrintForm(f) = (IF f.has THEN LET i == Pos(bs, {SP}) IN Take(bs, i) \o SkipSpaces(Drop(bs, i)) ELSE bs)
=============================================================================
