------------------------------- MODULE Print -------------------------------
(* What the printed tables and exported files state, given the results. A     *)
(* table is a sequence of lines, a line a sequence of words; values are given *)
(* by their decimal text (the recorder's rendering of the exact value).       *)
EXTENDS Integers, Sequences, TLC
(* rows: <<[k |-> level number, w15 |-> weight, l |-> labels]>> in the order of the level numbers *)
HierTable(rows) == <<<<"size", ToString(Len(rows))>>>> \o [i \in DOMAIN rows |-> <<rows[i].k, rows[i].w>> \o rows[i].l]
CsvFile(rows)   == [i \in DOMAIN rows |-> <<rows[i].w>> \o rows[i].l]
VisFile(rows)   == <<<<"1">>, <<ToString(Len(rows))>>>>
(* scores: <<id, core, score>> in the recorded order; groups: <<label, points>>; extremes: <<label, six values>> *)
ScoreTable(s)  == s
GroupTable(m)  == [i \in DOMAIN m |-> <<m[i][1]>> \o m[i][2]]
SizeTable(m)   == [i \in DOMAIN m |-> <<m[i][1], ToString(Len(m[i][2]))>>]
ExtremeTable(m) == LET one(x) == <<<<x[1]>>, <<"min_cr", x[2], "max_cr", x[3], "cr_confidence", x[6]>>, <<"min_dr", x[4], "max_dr", x[5], "dr_confidence", x[7]>>>>
                   IN [q \in 1..(3 * Len(m)) |-> one(m[(q - 1) \div 3 + 1])[((q - 1) % 3) + 1]]
(* statistics: mean, standard deviation, variance, maximum, kurtosis, skewness *)
StatTable(n, cr, dr) ==
    LET part(t, v) == <<<<t \o " Distances - Max", v[4]>>, <<t \o " Distances - Mean", v[1]>>, <<t \o " Distances - Skewness", v[6]>>,
                        <<t \o " Distances - Kurtosis", v[5]>>, <<t \o " Distances - Variance", v[3]>>, <<t \o " Distances - Standard Dev", v[2]>>>>
    IN <<<<"Cluster Count", ToString(n)>>>> \o part("Core", cr) \o part("Intra", dr)
(* g: vertices, edges <<a, b, w>>, adjacency lists *)
GraphTable(g) == <<<<"n", ToString(g.nv)>>, <<"A", ToString(Len(g.es))>>, <<"B", ToString(Len(g.es))>>, <<"W", ToString(Len(g.es))>>, <<"E", ToString(g.nv)>>,
                   [i \in DOMAIN g.es |-> g.es[i][1]], [i \in DOMAIN g.es |-> g.es[i][2]], [i \in DOMAIN g.es |-> g.es[i][3]]>> \o g.adj
(* upper triangle, row by row *)
DistTable(d) == [i \in DOMAIN d |-> [j \in 1..(Len(d) - i) |-> d[i][i + j]]]
LogLine(type, text) == IF type = "NONE" THEN <<text>> ELSE <<"date", type, text>>
=============================================================================
