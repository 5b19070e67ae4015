----------------------------- MODULE SimBitset -----------------------------
EXTENDS GenBitset
SimQueries == {<<0, 63>>, <<0, 64>>, <<63, 64>>, <<64, 127>>, <<128, 200>>, <<0, 300>>, <<62, 62, 64, 64>>,
               <<0, 62, 64, 126, 128, 191>>, <<65, 66>>, <<5>>, <<0, 10, 20>>, <<70, 60>>, <<65535, 65535>>,
               <<0, 65535>>, <<1000, 2000>>, <<10, 20, 15, 30>>, <<30, 40, 10, 20>>, <<127, 128, 191, 192>>, <<>>,
               <<0, 0>>, <<1, 1, 31, 32>>, <<64, 0>>, <<0, 63, 64, 127>>, <<200, 200>>, <<192, 201>>}
=============================================================================
