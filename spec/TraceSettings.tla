---------------------------- MODULE TraceSettings ---------------------------
EXTENDS Settings, Judge
Begin2(e) == e.r.def \o e.c.create
Final(e) == Settled(e.c.f, Begin2(e), e.c.calls, 1)
Problem(e) ==
  IF e.r.o # "ok" THEN "crash"
  ELSE IF ~(/\ {e.r.def[j][1] : j \in 1..Len(e.r.def)} = Keys(e.c.f) /\ \A j \in 1..Len(e.r.def) : DefaultOK(e.c.f, e.r.def[j][1], e.r.def[j][2])) THEN "default settings"
  ELSE IF CallsFrom(e.c.f, Begin2(e), e.c.calls, e.r.v, 1) # 0 THEN "answer " \o ToString(CallsFrom(e.c.f, Begin2(e), e.c.calls, e.r.v, 1))
  ELSE LET s == Final(e)
           t == e.r.text
           refuse == e.c.f = "json" /\ Flag("json", s, "strict") /\ Inexpressible(e.c.doc)
       IN IF (e.r.w = "err") # refuse THEN "refused or not"
          ELSE IF e.r.w = "err" THEN (IF e.r.fresh = "err" /\ e.r.whole = "err" THEN "none" ELSE "not refused with the settings from the start")
          ELSE IF e.r.fresh # "same" \/ e.r.whole # "same" THEN "differs from the settings given from the start"
          ELSE IF e.c.kind = "num" THEN (IF Rounded(NumberIn(t), e.c.doc.m[1][2], Amount(e.c.f, s, "precision")) THEN "none" ELSE "precision")
          ELSE IF e.c.kind = "plain" THEN "none"
          ELSE CASE e.c.f = "json" -> IF JsonOK(t, s) THEN "none" ELSE "layout"
                 [] e.c.f = "xml" -> IF XmlOK(t, s) THEN "none" ELSE "layout"
                 [] e.c.f = "yaml" -> IF ~MarksOK(t, s) THEN "marks" ELSE IF ~StylesOK(t, e.c.doc, s) THEN "styles" ELSE IF ~IndentOK(t, e.c.doc, s) THEN "indentation"
                                      ELSE IF ~WidthOK(t, e.c.doc, s) THEN "width" ELSE IF ~QuotesOK(t, e.c.doc, s) THEN "quotes" ELSE "none"
                 [] OTHER -> "none"
Verdict(e) == Problem(e) = "none"
Expected(e) == "wrong: " \o Problem(e)
Init == i \in Heads
Next == /\ i < N /\ i % Batch # 0 /\ i' = i + 1
Conforms == Report(Verdict(Trace[i]), Expected(Trace[i]))
=============================================================================
