----------------------------- MODULE CalendarMC -----------------------------
(* The calendar arithmetic of Numeric checked against counting days one by one through more than a whole 400-year cycle. *)
EXTENDS Numeric
VARIABLES day, date
Init == day = 0 - 146200 /\ date = DateOf(0 - 146200)
Next == day < 1000 /\ day' = day + 1 /\ date' = NextDate(date)
Inv == DateOf(day) = date /\ DaysOf(date[1], date[2], date[3]) = day /\ ValidDate(date[1], date[2], date[3]) /\ (day = 0 => date = <<1970, 1, 1>>)
=============================================================================
