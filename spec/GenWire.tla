------------------------------ MODULE GenWire ------------------------------
(* Every combination of boundary values of every field of every message type *)
EXTENDS Wire, TLC, Json

VARIABLE m

Rep(x, n) == [k \in 1 .. n |-> x]
Ids     == {0, 1, 255, 256, 65535}
Hashes  == {Rep(0, 20), Rep(255, 20), [k \in 1 .. 20 |-> k], [k \in 1 .. 20 |-> (k * 37) % 256]}
Chunks  == {<<>>, <<0, 0>>, <<4, 5, 60123>>, <<0, 65535>>, <<255, 256, 65534, 65535>>}
           \cup { [k \in 1 .. n |-> (k * 257) % 65536] : n \in {126, 127, 128, 253, 254, 255} }
BigLists == { [k \in 1 .. n |-> k] : n \in {256, 257, 300, 510, 512, 1000} }
Addrs   == {<<192, 168, 86, 34>>, <<0, 0, 0, 0>>, <<255, 254, 1, 128>>}
Ports   == {0, 1, 61696, 65535}
U32s    == {<<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<1, 2, 3, 4>>, <<255, 255, 255, 255>>}
U64s    == {Rep(0, 8), <<1, 2, 3, 4, 5, 6, 7, 8>>, Rep(255, 8)}
Names   == {<<>>, <<97>>, <<227, 131, 144, 46, 99>>, Rep(98, 254), Rep(98, 255), Rep(98, 256) , [k \in 1 .. 300 |-> k % 256]}

Entry   == [size : U64s, count : {<<0, 0, 0, 1>>, <<1, 2, 3, 4>>}, csize : {<<0, 64, 0, 0>>, <<9, 8, 7, 6>>},
            have : {<<0, 0, 0, 0>>, <<5, 6, 7, 8>>}, hash : {[k \in 1 .. 20 |-> k], Rep(255, 20)}, name : Names]
E1 == [size |-> <<0, 0, 0, 0, 0, 1, 2, 3>>, count |-> <<0, 0, 0, 9>>, csize |-> <<0, 64, 0, 0>>,
       have |-> <<0, 0, 0, 2>>, hash |-> [k \in 1 .. 20 |-> 200 - k], name |-> <<98, 97, 116, 46, 109, 107, 118>>]

Msgs ==
    [t : {DiscoverReq}, id : Ids, hash : Hashes, chunks : Chunks]
    \cup [t : {DiscoverReq}, id : {258}, hash : {[k \in 1 .. 20 |-> k]}, chunks : BigLists]
    \cup [t : {DiscoverRes}, id : Ids, addr : Addrs, port : Ports, chunks : Chunks]
    \cup [t : {DiscoverRes}, id : {258}, addr : {<<1, 2, 3, 4>>}, port : {5}, chunks : BigLists]
    \cup [t : {ListReq}, id : Ids, hash : Hashes]
    \cup [t : {ListRes}, id : Ids, files : {<<>>, <<E1>>, <<E1, E1>>, Rep(E1, 30), Rep(E1, 300)}]
    \cup { [t |-> ListRes, id |-> 513, files |-> <<e>>] : e \in Entry }
    \cup { [t |-> ListRes, id |-> 513, files |-> <<e, E1>>] : e \in Entry }
    \cup [t : {OpenReq}, hash : Hashes, chunk : Ids, cap : Ids]
    \cup [t : {Data}, off : U32s, data : {<<>>, <<1>>, Rep(7, 24), [k \in 1 .. 25 |-> k], [k \in 1 .. 1024 |-> k % 251]}]
    \cup [t : {Ack}, off : U32s \cup {<<0, 1, 0, 0>>, <<128, 0, 0, 0>>}]

Init == m \in Msgs
Next == UNCHANGED m
Spec == Init /\ [][Next]_m

RoundTrips == RoundTrip(m) /\ DataRoundTrip(m)
CutShort == NoPrefix(m)
Emit == PrintT(<<"GEN", ToJson(m)>>)
=============================================================================
