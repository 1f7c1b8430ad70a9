----------------------------- MODULE MCFilters -----------------------------
EXTENDS Filters, TLC, Json
EmitF == st.step = "done" => PrintT("@C " \o ToJson([ni |-> st.ni, nw |-> st.nw, extra |-> st.n - st.ni - st.nw]))
EmitW == Len(st.hist) = Ops + 1 => PrintT("@C " \o ToJson([hist |-> st.hist, shape |-> st.shape0]))
=============================================================================
