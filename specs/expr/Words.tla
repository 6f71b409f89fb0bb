------------------------------- MODULE Words -------------------------------
(* Texts, as byte codes. *)
W_And == <<32, 65, 78, 68, 32>>  \* AND
W_Or == <<32, 79, 82, 32>>  \* OR
W_Xor == <<32, 88, 79, 82, 32>>  \* XOR
W_InT == <<32, 73, 78, 32>>  \* IN
W_NotIn == <<32, 78, 79, 84, 32, 73, 78, 32>>  \* NOT IN
W_Contains == <<32, 67, 79, 78, 84, 65, 73, 78, 83, 32>>  \* CONTAINS
W_NotContains == <<32, 78, 79, 84, 32, 67, 79, 78, 84, 65, 73, 78, 83, 32>>  \* NOT CONTAINS
W_Starts == <<32, 83, 84, 65, 82, 84, 83, 32, 87, 73, 84, 72, 32>>  \* STARTS WITH
W_NotStarts == <<32, 78, 79, 84, 32, 83, 84, 65, 82, 84, 83, 32, 87, 73, 84, 72, 32>>  \* NOT STARTS WITH
W_Ends == <<32, 69, 78, 68, 83, 32, 87, 73, 84, 72, 32>>  \* ENDS WITH
W_NotEnds == <<32, 78, 79, 84, 32, 69, 78, 68, 83, 32, 87, 73, 84, 72, 32>>  \* NOT ENDS WITH
W_IsNull == <<32, 73, 83, 32, 78, 85, 76, 76>>  \* IS NULL
W_IsNotNull == <<32, 73, 83, 32, 78, 79, 84, 32, 78, 85, 76, 76>>  \* IS NOT NULL
W_IsEmpty == <<32, 73, 83, 32, 69, 77, 80, 84, 89>>  \* IS EMPTY
W_IsNotEmpty == <<32, 73, 83, 32, 78, 79, 84, 32, 69, 77, 80, 84, 89>>  \* IS NOT EMPTY
W_Column == <<67, 79, 76, 85, 77, 78, 91>>  \* COLUMN[
W_Uuid == <<117, 117, 105, 100, 40, 34>>  \* uuid("
W_UuidEnd == <<34, 41>>  \* ")
W_Case == <<67, 65, 83, 69>>  \* CASE
W_When == <<32, 87, 72, 69, 78, 32>>  \* WHEN
W_Then == <<32, 84, 72, 69, 78, 32>>  \* THEN
W_Else == <<32, 69, 76, 83, 69, 32>>  \* ELSE
W_End == <<32, 69, 78, 68>>  \* END
W_Quest == <<32, 63, 32>>  \* ?
W_Colon == <<32, 58, 32>>  \* :
W_Where == <<32, 87, 72, 69, 82, 69, 32>>  \* WHERE
W_Bar == <<32, 124, 32>>  \* |
W_Reduce == <<114, 101, 100, 117, 99, 101, 40>>  \* reduce(
W_Is == <<32, 61, 32>>  \* =
W_Comma == <<44, 32>>  \* ,
W_PathBuild == <<80, 97, 116, 104, 66, 117, 105, 108, 100, 91>>  \* PathBuild[
W_Distinct == <<100, 105, 115, 116, 105, 110, 99, 116, 32>>  \* distinct
W_Vertex == <<86, 69, 82, 84, 69, 88>>  \* VERTEX
W_Edge == <<69, 68, 71, 69>>  \* EDGE
W_Wildcard == <<87, 73, 76, 68, 67, 65, 82, 68, 40>>  \* WILDCARD(
W_Prefix == <<80, 82, 69, 70, 73, 88, 40>>  \* PREFIX(
W_Fuzzy == <<70, 85, 90, 90, 89, 40>>  \* FUZZY(
W_Regexp == <<82, 69, 71, 69, 88, 80, 40>>  \* REGEXP(
W_AutoT == <<44, 32, 65, 85, 84, 79, 44, 32>>  \* , AUTO,
W_OrT == <<79, 82>>  \* OR
W_AndT == <<65, 78, 68>>  \* AND
W_or == <<111, 114>>  \* or
W_TEmpty == <<95, 95, 69, 77, 80, 84, 89, 95, 95>>  \* __EMPTY__
W_TNull == <<78, 85, 76, 76>>  \* NULL
W_TBool == <<66, 79, 79, 76>>  \* BOOL
W_TInt == <<73, 78, 84>>  \* INT
W_TFloat == <<70, 76, 79, 65, 84>>  \* FLOAT
W_TString == <<83, 84, 82, 73, 78, 71>>  \* STRING
W_TDate == <<68, 65, 84, 69>>  \* DATE
W_TTime == <<84, 73, 77, 69>>  \* TIME
W_TDateTime == <<68, 65, 84, 69, 84, 73, 77, 69>>  \* DATETIME
W_TVertex == <<86, 69, 82, 84, 69, 88>>  \* VERTEX
W_TEdge == <<69, 68, 71, 69>>  \* EDGE
W_TPath == <<80, 65, 84, 72>>  \* PATH
W_TList == <<76, 73, 83, 84>>  \* LIST
W_TMap == <<77, 65, 80>>  \* MAP
W_TSet == <<83, 69, 84>>  \* SET
W_TDataSet == <<68, 65, 84, 65, 83, 69, 84>>  \* DATASET
=============================================================================
