--------------------------- MODULE TypeModelBase ---------------------------
(* A heap with an object of every sort. *)
EXTENDS TypeModel
Op(k) == [op |-> k, i |-> 0, j |-> 0, n |-> "", s |-> "", v |-> -1, b |-> FALSE, l |-> <<>>, w |-> <<>>]
On(k, i) == [Op(k) EXCEPT !.i = i]
BaseOps == <<
  [Op("ctype") EXCEPT !.n = "int"],                                  \* 1
  [Op("ctype") EXCEPT !.n = "char"],                                 \* 2
  [Op("ctype") EXCEPT !.n = "unsigned long"],                        \* 3
  On("ptr", 1),                                                      \* 4  int *
  On("const", 2),                                                    \* 5  char const
  On("ptr", 5),                                                      \* 6  char const *
  [On("typedef", 1) EXCEPT !.n = "ti"],                              \* 7
  [On("typedef", 7) EXCEPT !.n = "tti"],                             \* 8
  [Op("enum") EXCEPT !.n = "E"],                                     \* 9
  [On("addvalue", 9) EXCEPT !.v = 1, !.s = "ONE"],
  [On("addvalue", 9) EXCEPT !.v = 2, !.s = "TWO"],
  [On("addvalue", 9) EXCEPT !.v = 2, !.s = "DEUX"],
  [Op("rec") EXCEPT !.s = "struct", !.n = "S"],                      \* 10
  [On("inc", 10) EXCEPT !.s = "struct"],                             \* 11
  On("ptr", 11),                                                     \* 12
  [On("field", 12) EXCEPT !.n = "next"],                             \* 13
  [On("addfield", 10) EXCEPT !.j = 13],
  [On("field", 7) EXCEPT !.n = "a", !.v = 3],                        \* 14
  [On("addfield", 10) EXCEPT !.j = 14],
  [On("bits", 3) EXCEPT !.n = "b", !.v = 3],                         \* 15
  [On("addfield", 10) EXCEPT !.j = 15],
  [Op("rec") EXCEPT !.s = "union", !.n = "", !.b = TRUE],            \* 16
  [On("field", 1) EXCEPT !.n = "x"],                                 \* 17
  [On("addfield", 16) EXCEPT !.j = 17],
  [On("field", 6) EXCEPT !.n = "y"],                                 \* 18
  [On("addfield", 16) EXCEPT !.j = 18],
  [On("field", 16) EXCEPT !.n = ""],                                 \* 19
  [On("addfield", 10) EXCEPT !.j = 19],
  [On("typedef", 10) EXCEPT !.n = "TS"],                             \* 20
  On("const", 20),                                                   \* 21
  On("ptr", 21),                                                     \* 22
  On("ref", 21),                                                     \* 23
  [On("param", 1) EXCEPT !.n = "p"],                                 \* 24
  [On("param", 22) EXCEPT !.n = "q"],                                \* 25
  On("ret", 4),                                                      \* 26
  [Op("fn") EXCEPT !.l = <<26, 24, 25>>],                            \* 27
  On("ptr", 27),                                                     \* 28
  [On("typedef", 28) EXCEPT !.n = "cb"],                             \* 29
  [On("param", 29) EXCEPT !.n = "c"],                                \* 30
  [On("param", 28) EXCEPT !.n = "d"],                                \* 31
  On("ret", 9),                                                      \* 32
  [Op("decl") EXCEPT !.n = "f", !.l = <<32, 30, 31>>, !.w = <<"A", "B">>],   \* 33
  [On("attr", 33) EXCEPT !.n = "format", !.w = <<"1", "2">>],
  [Op("rec") EXCEPT !.s = "class", !.n = "K"],                       \* 34
  [On("field", 2) EXCEPT !.n = "k"],                                 \* 35
  [On("addfield", 34) EXCEPT !.j = 35],
  [On("param", 3) EXCEPT !.n = "u"],                                 \* 36
  On("ret", 8),                                                      \* 37
  [Op("decl") EXCEPT !.n = "m", !.l = <<37, 36>>, !.j = 34],         \* 38
  [On("addmethod", 34) EXCEPT !.j = 38],
  [On("param", 8) EXCEPT !.n = "r"],                                 \* 39
  On("ret", 1),                                                      \* 40
  [Op("func") EXCEPT !.n = "f", !.l = <<40, 39>>],                   \* 41
  On("ptr", 12),                                                     \* 42 pointer to pointer
  \* things to put into others
  [On("field", 1) EXCEPT !.n = "a"],                                 \* 43
  [On("bits", 9) EXCEPT !.n = "b", !.v = 3],                         \* 44
  [On("param", 1) EXCEPT !.n = "p"],                                 \* 45
  On("ret", 1),                                                      \* 46
  [Op("rec") EXCEPT !.s = "union", !.n = "U"],                       \* 47
  [On("inc", 47) EXCEPT !.s = "union"],                              \* 48
  [Op("rec") EXCEPT !.s = "class", !.n = "L"],                       \* 49
  On("ret", 3),                                                      \* 50
  [Op("decl") EXCEPT !.n = "m", !.l = <<50>>, !.j = 49],             \* 51 a method that isn't added
  On("const", 4),                                                    \* 52 int * const
  [Op("ctype") EXCEPT !.n = "signed char"],                          \* 53
  [Op("ctype") EXCEPT !.n = "unsigned char"]                         \* 54
>>
RECURSIVE Run(_, _)
Run(h, os) == IF os = <<>> THEN h ELSE Run(Do(h, Head(os)), Tail(os))
BaseHeap == Run(<<>>, BaseOps)
=============================================================================
