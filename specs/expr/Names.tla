------------------------------- MODULE Names -------------------------------
(* The functions: their names as byte codes, how many arguments they take (any number from
   lo, if hi is -1), and whether the same arguments always give the same result. *)
EXTENDS Integers, Sequences, TLC
Names == <<
  [n |-> "abs", w |-> <<97, 98, 115>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "bit_and", w |-> <<98, 105, 116, 95, 97, 110, 100>>, lo |-> 2, hi |-> 2, pure |-> TRUE],
  [n |-> "bit_or", w |-> <<98, 105, 116, 95, 111, 114>>, lo |-> 2, hi |-> 2, pure |-> TRUE],
  [n |-> "bit_xor", w |-> <<98, 105, 116, 95, 120, 111, 114>>, lo |-> 2, hi |-> 2, pure |-> TRUE],
  [n |-> "floor", w |-> <<102, 108, 111, 111, 114>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "ceil", w |-> <<99, 101, 105, 108>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "round", w |-> <<114, 111, 117, 110, 100>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "sqrt", w |-> <<115, 113, 114, 116>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "cbrt", w |-> <<99, 98, 114, 116>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "hypot", w |-> <<104, 121, 112, 111, 116>>, lo |-> 2, hi |-> 2, pure |-> TRUE],
  [n |-> "pow", w |-> <<112, 111, 119>>, lo |-> 2, hi |-> 2, pure |-> TRUE],
  [n |-> "e", w |-> <<101>>, lo |-> 0, hi |-> 0, pure |-> TRUE],
  [n |-> "exp", w |-> <<101, 120, 112>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "exp2", w |-> <<101, 120, 112, 50>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "log", w |-> <<108, 111, 103>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "log2", w |-> <<108, 111, 103, 50>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "log10", w |-> <<108, 111, 103, 49, 48>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "pi", w |-> <<112, 105>>, lo |-> 0, hi |-> 0, pure |-> TRUE],
  [n |-> "radians", w |-> <<114, 97, 100, 105, 97, 110, 115>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "sin", w |-> <<115, 105, 110>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "cos", w |-> <<99, 111, 115>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "asin", w |-> <<97, 115, 105, 110>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "acos", w |-> <<97, 99, 111, 115>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "tan", w |-> <<116, 97, 110>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "atan", w |-> <<97, 116, 97, 110>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "sign", w |-> <<115, 105, 103, 110>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "rand", w |-> <<114, 97, 110, 100>>, lo |-> 0, hi |-> 0, pure |-> FALSE],
  [n |-> "rand32", w |-> <<114, 97, 110, 100, 51, 50>>, lo |-> 0, hi |-> 2, pure |-> FALSE],
  [n |-> "rand64", w |-> <<114, 97, 110, 100, 54, 52>>, lo |-> 0, hi |-> 2, pure |-> FALSE],
  [n |-> "now", w |-> <<110, 111, 119>>, lo |-> 0, hi |-> 0, pure |-> FALSE],
  [n |-> "strcasecmp", w |-> <<115, 116, 114, 99, 97, 115, 101, 99, 109, 112>>, lo |-> 2, hi |-> 2, pure |-> TRUE],
  [n |-> "lower", w |-> <<108, 111, 119, 101, 114>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "tolower", w |-> <<116, 111, 108, 111, 119, 101, 114>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "upper", w |-> <<117, 112, 112, 101, 114>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "toupper", w |-> <<116, 111, 117, 112, 112, 101, 114>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "length", w |-> <<108, 101, 110, 103, 116, 104>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "trim", w |-> <<116, 114, 105, 109>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "ltrim", w |-> <<108, 116, 114, 105, 109>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "rtrim", w |-> <<114, 116, 114, 105, 109>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "left", w |-> <<108, 101, 102, 116>>, lo |-> 2, hi |-> 2, pure |-> TRUE],
  [n |-> "right", w |-> <<114, 105, 103, 104, 116>>, lo |-> 2, hi |-> 2, pure |-> TRUE],
  [n |-> "replace", w |-> <<114, 101, 112, 108, 97, 99, 101>>, lo |-> 3, hi |-> 3, pure |-> TRUE],
  [n |-> "reverse", w |-> <<114, 101, 118, 101, 114, 115, 101>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "split", w |-> <<115, 112, 108, 105, 116>>, lo |-> 2, hi |-> 2, pure |-> TRUE],
  [n |-> "lpad", w |-> <<108, 112, 97, 100>>, lo |-> 3, hi |-> 3, pure |-> TRUE],
  [n |-> "rpad", w |-> <<114, 112, 97, 100>>, lo |-> 3, hi |-> 3, pure |-> TRUE],
  [n |-> "substr", w |-> <<115, 117, 98, 115, 116, 114>>, lo |-> 2, hi |-> 3, pure |-> TRUE],
  [n |-> "substring", w |-> <<115, 117, 98, 115, 116, 114, 105, 110, 103>>, lo |-> 2, hi |-> 3, pure |-> TRUE],
  [n |-> "tostring", w |-> <<116, 111, 115, 116, 114, 105, 110, 103>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "toboolean", w |-> <<116, 111, 98, 111, 111, 108, 101, 97, 110>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "tofloat", w |-> <<116, 111, 102, 108, 111, 97, 116>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "tointeger", w |-> <<116, 111, 105, 110, 116, 101, 103, 101, 114>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "hash", w |-> <<104, 97, 115, 104>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "size", w |-> <<115, 105, 122, 101>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "time", w |-> <<116, 105, 109, 101>>, lo |-> 0, hi |-> 1, pure |-> FALSE],
  [n |-> "date", w |-> <<100, 97, 116, 101>>, lo |-> 0, hi |-> 1, pure |-> FALSE],
  [n |-> "datetime", w |-> <<100, 97, 116, 101, 116, 105, 109, 101>>, lo |-> 0, hi |-> 1, pure |-> FALSE],
  [n |-> "timestamp", w |-> <<116, 105, 109, 101, 115, 116, 97, 109, 112>>, lo |-> 0, hi |-> 1, pure |-> FALSE],
  [n |-> "tags", w |-> <<116, 97, 103, 115>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "labels", w |-> <<108, 97, 98, 101, 108, 115>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "properties", w |-> <<112, 114, 111, 112, 101, 114, 116, 105, 101, 115>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "type", w |-> <<116, 121, 112, 101>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "typeid", w |-> <<116, 121, 112, 101, 105, 100>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "rank", w |-> <<114, 97, 110, 107>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "startnode", w |-> <<115, 116, 97, 114, 116, 110, 111, 100, 101>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "endnode", w |-> <<101, 110, 100, 110, 111, 100, 101>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "keys", w |-> <<107, 101, 121, 115>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "nodes", w |-> <<110, 111, 100, 101, 115>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "tail", w |-> <<116, 97, 105, 108>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "relationships", w |-> <<114, 101, 108, 97, 116, 105, 111, 110, 115, 104, 105, 112, 115>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "head", w |-> <<104, 101, 97, 100>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "last", w |-> <<108, 97, 115, 116>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "coalesce", w |-> <<99, 111, 97, 108, 101, 115, 99, 101>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "range", w |-> <<114, 97, 110, 103, 101>>, lo |-> 2, hi |-> 3, pure |-> TRUE],
  [n |-> "hassameedgeinpath", w |-> <<104, 97, 115, 115, 97, 109, 101, 101, 100, 103, 101, 105, 110, 112, 97, 116, 104>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "hassamevertexinpath", w |-> <<104, 97, 115, 115, 97, 109, 101, 118, 101, 114, 116, 101, 120, 105, 110, 112, 97, 116, 104>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "reversepath", w |-> <<114, 101, 118, 101, 114, 115, 101, 112, 97, 116, 104>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "datasetrowcol", w |-> <<100, 97, 116, 97, 115, 101, 116, 114, 111, 119, 99, 111, 108>>, lo |-> 3, hi |-> 3, pure |-> TRUE],
  [n |-> "udf_is_in", w |-> <<117, 100, 102, 95, 105, 115, 95, 105, 110>>, lo |-> 2, hi |-> -1, pure |-> TRUE],
  [n |-> "near", w |-> <<110, 101, 97, 114>>, lo |-> 2, hi |-> 2, pure |-> TRUE],
  [n |-> "cos_similarity", w |-> <<99, 111, 115, 95, 115, 105, 109, 105, 108, 97, 114, 105, 116, 121>>, lo |-> 2, hi |-> -1, pure |-> TRUE],
  [n |-> "id", w |-> <<105, 100>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "src", w |-> <<115, 114, 99>>, lo |-> 1, hi |-> 1, pure |-> TRUE],
  [n |-> "dst", w |-> <<100, 115, 116>>, lo |-> 1, hi |-> 1, pure |-> TRUE]>>
Known(w) == \E i \in 1..Len(Names) : Names[i].w = w
Named(w) == Names[CHOOSE i \in 1..Len(Names) : Names[i].w = w]
Takes(f, n) == n >= f.lo /\ (f.hi = -1 \/ n <= f.hi)
=============================================================================
