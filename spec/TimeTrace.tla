------------------------------ MODULE TimeTrace ------------------------------
(* Times written by full_ctime / split_time and read by                     *)
(* get_time_from_string, against TimeText.tla.  The names of months and     *)
(* days are state: set_month_name / set_day_of_week_name change them.       *)
EXTENDS TimeText, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, names

OkShow(e) == e.same = 1 /\ ShowOk(e.t, e.f, names, e.txt)
OkSplit(e) == LET d == DateOf(e.cal, e.t[1]) IN
   /\ e.y = d.y /\ e.m = d.m /\ e.d = d.d
   /\ LET s == e.h * 3600 + e.mi * 60 + e.s IN Near(<<e.t[1], s, e.us>>, e.t, 2)
   /\ e.h \in 0..23 /\ e.mi \in 0..59 /\ e.s \in 0..59
\* error codes: what is unreadable leaves the time as it was, and says so
OkError(e) == CASE e.want = -3 -> e.ut = -3 /\ e.res = e.init
                [] e.want = -2 -> e.ut = -2 /\ e.res = e.init
                [] e.want = -1 -> e.ut = -1 /\ e.res = e.init
                [] OTHER -> e.ut = e.want
OkParse(e) == IF ~Written(e.ast, e.text) THEN FALSE ELSE e.same = 1 /\ Reads(e.ast, e.init, e.f, names, e.now, e.res, e.ut)
\* reading back what was written gives the time as written
Unit(f) == CASE f.unit = "S" -> <<0, 1, 0>> [] f.unit = "M" -> <<0, 60, 0>> [] f.unit = "H" -> <<0, 3600, 0>> [] OTHER -> <<1, 0, 0>>
Tol(f) == LET u == Unit(f) IN Add(<<0, 0, 3>>, IF u[1] = 1 THEN Norm(0, 86400 \div Pow10(f.p), (86400 % Pow10(f.p)) * Pow10(6 - f.p))
                              ELSE Norm(0, u[2] \div Pow10(f.p), (u[2] % Pow10(f.p)) * Pow10(6 - f.p)))
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] <= b[3])))
OkRound(e) == /\ e.ut = IF e.f.unit \in {"JD", "MJD"} THEN 1 ELSE 0
              /\ Before(e.t, Add(e.back, Tol(e.f))) /\ Before(e.back, Add(e.t, Tol(e.f)))
OkPhase(e) == PhaseOk(e.t, e.ph, <<>>, e.res)
Ok(e) == CASE e.op = "show" -> OkShow(e) [] e.op = "split" -> OkSplit(e) [] e.op = "parse" -> OkParse(e)
           [] e.op = "error" -> OkError(e) [] e.op = "round" -> OkRound(e) [] e.op = "phase" -> OkPhase(e)
           [] e.op = "long" -> LET x == Show(e.t, e.f, names) IN StartsWith(e.txt, x) /\ Len(e.txt) = Len(x) + e.p - 1
                               /\ \A k \in (Len(x) + 1)..Len(e.txt) : IsDigit(e.txt[k])
           [] e.op = "any" -> e.ut \in -6..1
           [] e.op = "start" -> TRUE
           [] e.op = "mname" -> e.got = e.txt [] e.op = "wname" -> e.got = e.txt
           [] OTHER -> FALSE
What(e) == CASE e.op = "show" -> Show(e.t, e.f, names)
             [] e.op = "long" -> Show(e.t, e.f, names) [] e.op = "parse" -> IF ~Written(e.ast, e.text) THEN <<"text", TextOf(e.ast)>>
                                  ELSE IF e.ast.ph >= 0 THEN <<"phase of", Base(e.ast, e.init, e.f, names, e.now)>>
                                  ELSE <<AddOffs(Base(e.ast, e.init, e.f, names, e.now), e.ast.offs, 1), IsUt(e.ast)>>
             [] OTHER -> 0
Init == i = 1 /\ names = DefaultNames
Next ==
   /\ i <= Len(Trace) /\ i' = i + 1
   /\ LET e == Trace[i] IN
      /\ names' = CASE e.op = "start" -> DefaultNames
                    [] e.op = "mname" -> [names EXCEPT !.m[e.k] = e.txt]
                    [] e.op = "wname" -> [names EXCEPT !.w[e.k] = e.txt]
                    [] OTHER -> names
      /\ IF Ok(e) THEN TRUE ELSE PrintT(<<"REJECT", i, What(e)>>)
Spec == Init /\ [][Next]_<<i, names>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
