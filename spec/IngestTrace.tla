---------------------------- MODULE IngestTrace ----------------------------
(* Conformance of the ingestion and of posterior_predictive_resample.       *)
EXTENDS Ingest, TraceBase
VARIABLES s, l
NearN(a, b) == Near(a, b, "1e-12", "0")

(* -- ingestion (C14): e.tables[i][col][row]; e.data[col][i][j] ------------- *)
\* the columns all tables share
Cols(e) == {c \in DOMAIN e.tables[1] : c # "prior" /\ \A i \in DOMAIN e.tables : c \in DOMAIN e.tables[i]}
NRow(e, i) == Len(e.tables[i][CHOOSE c \in DOMAIN e.tables[i] : TRUE])
\* rows of table i that agree with sample j of event i in the columns cs (data) and the prior
Rows(e, i, j, withprior) ==
  {r \in 1..NRow(e, i) :
     /\ \A c \in Cols(e) \cap DOMAIN e.data : e.data[c][i][j] = e.tables[i][c][r]
     /\ (withprior /\ e.prior.k = "arr") => e.prior.d[i][j] = e.tables[i]["prior"][r]}
IngestClauses(e) ==
  LET lens == [i \in DOMAIN e.tables |-> NRow(e, i)]
      k == Kept(lens, e.max)
      n == Len(e.tables)
      hasprior == "prior" \in DOMAIN e.tables[1]
      keys == e.ok /\ DOMAIN e.data = Cols(e)
      shape == keys /\ \A c \in DOMAIN e.data : Len(e.data[c]) = n /\ \A i \in 1..n : Len(e.data[c][i]) = k
      pshape == e.ok /\ e.prior.k = "arr" /\ Len(e.prior.d) = n /\ \A i \in 1..n : Len(e.prior.d[i]) = k
  IN
  [ builds |-> e.ok,
    keys   |-> keys,
    shape  |-> shape,
    samples_per_posterior |-> e.ok => e.samples = k,
    rows_intact |-> shape => \A i \in 1..n : \A j \in 1..k : Rows(e, i, j, FALSE) # {},
    without_replacement |-> shape => \A i \in 1..n : \A j, m \in 1..k :
         j < m => Rows(e, i, j, FALSE) \cap Rows(e, i, m, FALSE) = {},
    prior_used |-> (e.ok /\ hasprior) => pshape,
    prior_aligned |-> (shape /\ hasprior /\ pshape) => \A i \in 1..n : \A j \in 1..k : Rows(e, i, j, TRUE) # {},
    prior_default |-> (e.ok /\ ~hasprior) => (e.prior.k = "num" /\ Eq(e.prior.d, One)) ]

(* -- frequencies: counts[i] of n draws with probability w[i] ----------------- *)
Band(w, n) == ("6" \otimes Sqrt((w \otimes (One \ominus w)) \otimes n)) \oplus "3"
FreqClauses(e) ==
  [ frequencies |-> \A i \in DOMAIN e.counts :
        Abs(e.counts[i] \ominus (e.w[i] \otimes e.n)) \preceq Band(e.w[i], e.n) ]

(* -- predictive resampling (C15) --------------------------------------------- *)
\* weight of sample k under hyperparameter sample h: model/prior normalised over the event
Raw(e, h, i) == [k \in 1..e.n |->
   LET a == IF e.conv = "replace" THEN "3" \otimes e.hyper[h].a ELSE e.hyper[h].a
       b == IF e.conv = "double" THEN Two \otimes e.hyper[h].c ELSE e.hyper[h].b
       v == (a \otimes e.data.x[i][k]) \oplus (b \otimes e.data.y[i][k])
   IN IF "prior" \in DOMAIN e THEN v \oslash e.prior[i][k] ELSE v]
NormW(q) == LET t == Sum(q) IN [k \in DOMAIN q |-> q[k] \oslash t]
Avg(e, i) == LET W == [h \in DOMAIN e.hyper |-> NormW(Raw(e, h, i))]
             IN [k \in 1..e.n |-> Div(Sum([h \in DOMAIN W |-> W[h][k]]), Len(W))]
ResampleClauses(e) ==
  LET m == Len(e.data.x)
      shape == e.ok /\ DOMAIN e.new = DOMAIN e.data /\ \A c \in DOMAIN e.new : Len(e.new[c]) = m /\ \A i \in 1..m : Len(e.new[c][i]) = e.n
      wshape == e.ok /\ Len(e.weights) = m /\ \A i \in 1..m : Len(e.weights[i]) = e.n
      src(i, j) == {k \in 1..e.n : \A c \in DOMAIN e.data : e.new[c][i][j] = e.data[c][i][k]}
  IN
  [ runs |-> e.ok,
    shape |-> shape,
    aligned_copies |-> shape => \A i \in 1..m : \A j \in 1..e.n : src(i, j) # {},
    weights |-> e.hasw => (wshape /\ \A i \in 1..m : NearSeq(e.weights[i], Avg(e, i), "1e-9", "1e-12")),
    weights_sum_to_one |-> (e.hasw /\ wshape) => \A i \in 1..m : Near(Sum(e.weights[i]), One, "1e-9", "0"),
    zero_weight_never_drawn |-> shape => \A i \in 1..m : \A j \in 1..e.n :
        src(i, j) # {} => \E k \in src(i, j) : ~Eq(Avg(e, i)[k], Zero) ]
Clauses(e) == CASE e.op = "ingest" -> IngestClauses(e)
                [] e.op = "freq" -> FreqClauses(e)
                [] OTHER -> ResampleClauses(e)
Init == s \in 1..Len(Scen) /\ l = 0
Next == /\ l < Len(Scen[s].ev) /\ l' = l + 1 /\ s' = s
        /\ Report(s, l + 1, Clauses(Scen[s].ev[l + 1]))
=============================================================================
