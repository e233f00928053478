spec const PERIOD: int = 86_400_000;
//@fn engine/src/datastr/graph/time_dependent/mod.rs -::period
//@spec
    ensures r == PERIOD
//@endfn
