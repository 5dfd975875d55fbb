------------------------------ MODULE Documents ------------------------------
(* Generated by tools/gen_alphabets.py: documents to query. *)
EXTENDS Sequences

Documents == <<
  <<<<"a", ":">>, <<"#", " ", "s">>, <<"f", ":", " ", "1">>>>,
  <<<<"l", ":">>, <<"-", " ", "1">>, <<"-">>, <<">", " ", "c">>, <<"e", ":">>, <<"x", " ", "=", " ", "2">>>>,
  <<<<"#", " ", "s">>, <<"f", ":">>, <<"a", ":", " ", "1">>, <<"#", " ", "t", " ", "<", " ", "s">>, <<"a", ":", " ", "2">>>>,
  <<<<"-", "-", " ", "m">>, <<"v">>, <<"-", "-", " ", "m">>, <<"m", ":", " ", "2">>, <<"#", " ", "s">>, <<"#", "#", " ", "t">>, <<"e", ":">>, <<"y", " ", "=">>>>,
  <<<<">", " ", "c">>, <<"f", ":", " ", "1">>, <<"|", " ", "2">>, <<"g", " ", "<", " ", "f">>, <<"l", ":">>, <<"-", " ", "1">>, <<"k", " ", "<", " ", "l">>, <<"-", " ", "2", "2">>>>
>>
==============================================================================
