----------------------------- MODULE Alphabets -----------------------------
(* Generated by tools/gen_alphabets.py: sets of lines to make documents of. *)

AnyLines ==
  {<<>>,
   <<">", " ", "c">>,
   <<"a", ":">>,
   <<"a", ":", " ", "1">>,
   <<"-", " ", "2">>,
   <<"b", " ", "=", " ", "3">>,
   <<"|", " ", "4">>,
   <<"\\", " ", "5">>,
   <<"#", " ", "s">>,
   <<"#", "#", " ", "t">>,
   <<"#", "#", "#", " ", "u">>,
   <<"-", "-", " ", "m">>,
   <<"-", " ", "m">>,
   <<"x", " ", "<", " ", "a">>,
   <<"#", " ", "t", " ", "<", " ", "s">>,
   <<"!">>,
   <<"`", "a">>}

CopyLines ==
  {<<"a", ":", " ", "1">>,
   <<"b", ":">>,
   <<"-", " ", "2">>,
   <<"c", " ", "=", " ", "3">>,
   <<"a", " ", "<", " ", "b">>,
   <<"b", " ", "<", " ", "c">>,
   <<"c", " ", "<", " ", "a">>,
   <<"#", " ", "s">>,
   <<"-", "-", " ", "c">>,
   <<">", " ", "d">>}

SectionLines ==
  {<<"#", " ", "s">>,
   <<"#", " ", "t">>,
   <<"#", " ", "s", " ", "<", " ", "t">>,
   <<"#", " ", "t", " ", "<", "<", " ", "s">>,
   <<"#", " ", "u", " ", "<", "<", " ", "t">>,
   <<"#", "#", " ", "s">>,
   <<"#", "#", " ", "t">>,
   <<"#", "#", " ", "u", " ", "<", " ", "s">>,
   <<"a", ":", " ", "1">>,
   <<"a", ":", " ", "2">>}

DeepLines ==
  {<<"#", " ", "s">>,
   <<"#", " ", "t", " ", "<", "<", " ", "s">>,
   <<"#", " ", "u", " ", "<", "<", " ", "t">>,
   <<"#", "#", " ", "v">>,
   <<"#", "#", "#", " ", "w">>,
   <<"#", "#", " ", "v", " ", "<", "<", " ", "u">>,
   <<"a", ":", " ", "1">>,
   <<"b", ":", " ", "2">>}

ContinuationLines ==
  {<<"k", ":">>,
   <<"k", ":", " ", "v">>,
   <<"-", " ", "i">>,
   <<"e", " ", "=", " ", "w">>,
   <<"|">>,
   <<"|", " ", "a">>,
   <<"\\">>,
   <<"\\", " ", "b">>,
   <<>>,
   <<">", " ", "c">>}

MultilineLines ==
  {<<"-", "-", " ", "m">>,
   <<"-", "-", "m">>,
   <<"-", "-", "-", " ", "m">>,
   <<"-", " ", "m">>,
   <<"-", "-", " ", "n">>,
   <<>>,
   <<"x">>,
   <<">", " ", "c">>,
   <<"	", "-", "-", " ", "m", " ">>}

CycleLines ==
  {<<"a", " ", "<", " ", "b">>,
   <<"b", " ", "<", " ", "a">>,
   <<"b", ":", " ", "1">>,
   <<"#", " ", "s">>,
   <<"#", " ", "s", " ", "<", " ", "t">>,
   <<"#", " ", "t", " ", "<", "<", " ", "s">>,
   <<"#", "#", " ", "t">>,
   <<"#", "#", " ", "s", " ", "<", " ", "t">>}

CommentLines ==
  {<<">">>,
   <<">", " ", "a">>,
   <<">", " ", " ", "b">>,
   <<" ", " ", ">", " ", "c">>,
   <<>>,
   <<"k", ":">>,
   <<"-", " ", "i">>,
   <<"#", " ", "s">>}

=============================================================================
