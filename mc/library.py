"""Hand-written machines, by topic.  Text format: see gen.py."""

LIB = {}


def spec(name, text):
    LIB[name] = text


# ---------------------------------------------------------------- flat machines
spec('flat3', '''
deps 1
unexp
entry *
exit *
table M:
 *A + e0 / a = B
 A + e1 [g] / a = A
 B + e0 [g] / a = C
 B + e1 = A
 C + e0 [g] = A
 C + e1 / a = C
 C + e2 = B
''')
spec('flat_unex', '''
deps 2
unexp
table M:
 *A + e0 = B
 A + e1 [g] = B
 B + e1 / a = A
 B + e2 = C
 C + e3 [g] = A
''')
# every event of every state, guards everywhere
spec('grid', '''
table M:
 *A + e0 [g] / a = B
 A + e1 [g] / a = C
 A + e2 / a = A
 B + e0 [g] / a = C
 B + e1 / a = B
 B + e2 [g] / a = A
 C + e0 / a = C
 C + e1 [g] / a = A
 C + e2 [g] / a = B
''')
# long chain: more than 16 states
spec('ring20', 'table M:\n *S0 + e0 / a = S1\n' + '\n'.join(
    ' S%d + e0 = S%d' % (i, (i + 1) % 20) for i in range(1, 20)) + '\n'
     + '\n'.join(' S%d + e1 = S%d' % (i, (i * 7 + 3) % 20) for i in range(0, 20)))
# ---------------------------------------------------------------- priorities
spec('prio2', '''
table M:
 *A + e0 [g] / a = B
 A + e0 [g] / a = C
 A + e0 [g] / a = A
 B + e0 / a = A
 B + e0 [g] / a = C
 C + e0 [g] / a = A
 C + e0 / a = B
 C + e0 [g] / a = C
''')
spec('prio5', '''
table M:
 *A + e0 / a = B
 A + e0 [g] / a = C
 A + e0 [g] / a = D
 A + e0 [g] / a = E
 A + e0 [g] / a = A
 B + e0 = A ; C + e0 = A ; D + e0 = A ; E + e0 = A
 B + e1 [g] / a = A
 B + e1 [g] = B
''')
spec('prio_shared', '''
table M:
 *A + e0 [g:x] / a = B
 A + e0 [g:y] / a = C
 A + e1 [g:y] / a = B
 A + e1 [g:x] / a = C
 B + e0 [g:x] / a = A
 B + e1 [g:y] / a = A
 C + e0 [g:x] / a = B
 C + e0 [g:y] / a = A
 C + e1 / a = A
''')
spec('prio_int', '''
entry *
exit *
table M:
 *A + e0 [g] / a = B
 A + e0 [g] / a = A
 B + e1 [g] / a = A
 B + e0 = A
 A + e2 = B
internal M:
 + e0 [g] / a
 + e0 [g] / a
 + e1 [g] / a
 + e1 [g]
''')
spec('prio_comp', '''
entry *
exit *
table M:
 *A + e0 = P
 P + e1 [g] / a = A
 P + e1 [g] / a = B
 P + e2 [g] / a = P
 B + e0 [g] / a = P
 B + e0 [g] / a = A
 B + e1 = A
table P:
 *X + e0 [g] / a = Y
 X + e0 [g] / a = X
 Y + e0 [g] / a = X
 Y + e3 [g] / a = X
 Y + e3 [g] / a = Y
internal P:
 + e1 [g] / a
 + e3 [g] / a
 + e3 [g] / a
''')
spec('reg_prio', '''
entry *
exit *
table M:
 *A + e0 [g] / a = A2
 A + e0 [g] / a = A
 A2 + e0 / a = A
 *B + e0 [g] / a = B2
 B + e0 [g] / a = P
 B2 + e0 [g] / a = B
 B2 + e1 [g] / a = B
 B2 + e1 [g] / a = B2
 P + e2 [g] / a = B
 P + e2 [g] / a = P
 *D + e1 [g] / a = D2
 D + e1 [g] / a = D
 D2 + e1 [g] / a = D
 D2 + e1 / a = D2
 D2 + e0 [g] / a = D
internal M:
 + e2 [g] / a
 + e2 [g] / a
table P:
 *X + e0 [g] / a = Y
 X + e0 [g] / a = X
 Y + e0 [g] / a = X
 Y + e0 [g] / a = Y
internal P:
 + e1 [g] / a
 + e1 [g] / a
''')
spec('anon_bare', '''
entry *
exit *
table M:
 *A + e0 = B
 B = C
 C + e0 = D
 D = P
 C + e1 [g] = B
 P + e1 = A
 exit(P,Z) = E
 E + e0 = F
 F = history(P)
 E + e1 = G
 G = entry(P,Y)
 E + e2 = H
 H = direct(P,Z2)
table P:
 *X + e0 = Y
 Y + e0 = Z
 Y + e2 = Z2
 Z2 + e0 = X
 Z2 + e2 = X2
 X2 = X
''')
spec('prio_same', '''
entry *
exit *
table M:
 *A + e0 [g] / a = B
 A + e0 [g] / a = B
 A + e1 [g] / a = P
 A + e1 [g] / a = P
 B + e0 [g] / a = A
 B + e0 / a = A
 B + e0 [g] / a = A
 B + e1 = P
 P + e1 [g] / a = A
 P + e1 [g] / a = A
 P + e2 [g] / a = P
 P + e2 [g] / a = P
 P + e3 [g] / a = B
 P + e3 [g] / a = B
table P:
 *X + e0 [g] / a = Y
 X + e0 [g] / a = Y
 Y + e0 [g] / a = X
 Y + e4 [g] / a = X
 Y + e4 [g] / a = X
internal P:
 + e1 [g] / a
 + e1 [g] / a
''')
spec('prio_anon', '''
entry *
exit *
table M:
 *A + e0 / a = B
 B [g] / a = C
 B [g] / a = D
 B + e0 / a = A
 C + e0 / a = A
 D [g] / a = A
 D [g] / a = C
 D + e0 = A
''')
spec('prio_pseudo', '''
exit *
table M:
 *A + e0 = P
 exit(P,X) + e1 [g] / a = A
 exit(P,X) + e1 [g] / a = B
 exit(P,Y) + e1 [g] / a = B
 B + e0 [g] / a = entry(P,Y)
 B + e0 [g] / a = entry(P,X)
 B + e0 [g] / a = P
 B + e1 = A
table P:
 *X + e0 / a = Y
 Y + e0 [g] / a = X
''')
spec('prio_deps', '''
deps 3
unexp
table M:
 *A + e0 [g] / a = B
 A + e0 [g] / a = A
 B + e0 [g] / a = A
 B + e1 [g] / a = B
 B + e1 [g] / a = A
internal M:
 + e2 [g] / a
 + e2 [g] / a
''')
# ---------------------------------------------------------------- composites
spec('comp1', '''
deps 1
entry *
exit *
table M:
 *A + e0 / a = P
 P + e1 / a = A
 P + e2 [g] / a = P
 A + e2 = A
table P:
 *X + e0 [g] / a = Y
 Y + e0 / a = X
''')
spec('comp2', '''
entry *
exit *
table M:
 *A + e0 = P
 A + e1 = Q
 P + e1 [g] / a = Q
 Q + e0 [g] / a = P
 P + e2 = A
 Q + e2 = A
table P:
 *X + e3 / a = Y
 Y + e3 / a = X
table Q:
 *Y + e3 [g] / a = X
 X + e3 / a = Y
 X + e4 / a = Z
 Z + e3 = X
''')
spec('comp_deep', '''
entry *
exit *
table M:
 *A + e0 = P
 P + e1 / a = A
table P:
 *B + e0 = Q
 Q + e1 / a = B
 B + e2 / a = C
 C + e2 / a = B
table Q:
 *C + e0 = R
 R + e1 / a = C
 C + e2 / a = D
 D + e2 / a = C
table R:
 *D + e0 / a = E
 E + e2 [g] / a = F
 F + e2 / a = D
''')
spec('comp_deep5', '''
table M:
 *A + e0 = P1
 P1 + e1 = A
table P1:
 *A + e0 = P2
 P2 + e1 = A
table P2:
 *A + e0 = P3
 P3 + e1 = A
table P3:
 *A + e0 = P4
 P4 + e1 = A
table P4:
 *A + e0 = B
 B + e2 / a = A
''')
# the same leaf types in several composites, in different roles
spec('comp_same', '''
entry *
exit *
table M:
 *A + e0 = P
 A + e1 = Q
 A + e2 = R
 P + e3 / a = A
 Q + e3 / a = A
 R + e3 / a = A
table P:
 *X + e0 / a = Y
 Y + e1 / a = X
table Q:
 *Y + e0 / a = X
 X + e1 [g] / a = Y
table R:
 *X + e1 / a = X
 X + e0 / a = Z
 Z + e0 / a = X
''')
spec('comp_self', '''
entry *
exit *
table M:
 *A + e0 = P
 P + e0 / a = P
 P + e1 [g] / a = Q
 Q + e0 / a = Q
 Q + e1 / a = P
 Q + e2 = A
table P:
 *X + e3 = Y
 Y + e3 = X
table Q:
 *Y + e3 = X
 X + e3 = Z
 Z + e3 = Y
''')
spec('comp_order', '''
entry *
exit *
table M:
 P + e1 / a = A
 Q + e1 / a = A
 *A + e0 / a = Q
 A + e2 / a = P
table P:
 Y + e0 = X
 *X + e0 [g] = Y
 X + e2 = Z
 Z + e0 = X
table Q:
 V + e0 = U
 U + e2 = W
 *U + e0 [g] = V
 W + e0 = U
''')
spec('comp_internal', '''
entry *
exit *
table M:
 *A + e0 = P
 P + e1 / a = A
 A + e2 = B
 B + e0 = P
internal M:
 + e3 / a
table P:
 *X + e0 / a = Y
 Y + e0 / a = X
 X + e4 = R
 R + e4 / a = Y
internal P:
 + e2 [g] / a
table R:
 *U + e0 = V
 V + e0 = U
internal R:
 + e5 / a
''')
# ---------------------------------------------------------------- pseudo states
spec('pseudo1', '''
entry *
exit *
table M:
 *A + e0 = entry(P,Y)
 A + e1 / a = entry(P,X)
 A + e2 = direct(P,Z)
 A + e3 [g] / a = direct(P,Y)
 exit(P,Y) + e0 / a = A
 exit(P,Z) + e0 = B
 exit(P,X) + e1 [g] / a = B
 direct(P,Y) + e1 / a = B
 B + e0 / a = entry(P,Z)
 B + e1 = A
table P:
 *X + e2 = Y
 Y + e2 [g] / a = Z
 Z + e2 = X
''')
spec('pseudo2', '''
deps 1
entry *
exit *
table M:
 *A + e0 = entry(P,Y)
 A + e1 = entry(Q,Y)
 exit(P,Y) + e0 / a = entry(Q,X)
 exit(Q,X) + e0 / a = direct(P,Y)
 exit(Q,Y) + e1 / a = P
 exit(P,X) + e1 / a = Q
 direct(P,X) + e2 / a = direct(Q,X)
 direct(Q,X) + e2 / a = direct(P,X)
 P + e4 = A
 Q + e4 / a = A
table P:
 *X + e3 = Y
 Y + e3 / a = X
table Q:
 *X + e3 = Y
 Y + e3 / a = X
''')
spec('pseudo_nested', '''
entry *
exit *
table M:
 *A + e0 = P
 A + e1 / a = entry(R,V)
 A + e2 / a = direct(R,U)
 exit(R,V) + e1 / a = A
 exit(P,X) + e1 / a = A
 exit(R,U) + e3 [g] / a = P
table P:
 *X + e0 = entry(R,V)
 X + e2 / a = direct(R,U)
 X + e3 = R
 exit(R,U) + e0 / a = X
 direct(R,V) + e0 / a = Y
 Y + e0 = X
table R:
 *U + e2 / a = V
 V + e2 / a = U
''')
spec('pseudo_exit_self', '''
exit *
entry *
table M:
 *A + e0 = P
 exit(P,X) + e1 / a = P
 exit(P,Y) + e1 / a = entry(P,Y)
 exit(P,Y) + e2 [g] = history(P)
 exit(P,X) + e3 [g] / a = A
 exit(P,Y) + e3 [g] / a = A
table P:
 *X + e0 = Y
 Y + e0 = X
''')
spec('pseudo_regions', '''
entry *
exit *
table M:
 *A + e0 = entry(P,Y)
 *B + e0 [g] = entry(Q,V)
 *C + e1 / a = direct(R,V)
 exit(P,Y) + e1 / a = A
 exit(Q,V) + e1 [g] / a = B
 exit(R,V) + e0 / a = C
 direct(R,U) + e0 / a = C
table P:
 *X + e2 = Y
 Y + e2 = X
table Q:
 *U + e2 = V
 V + e2 = U
table R:
 *U + e2 = V
 V + e2 [g] = U
''')
# ---------------------------------------------------------------- history
spec('hist1', '''
entry *
exit *
table M:
 *A + e0 / a = history(P)
 A + e1 = P
 A + e2 [g] / a = entry(P,Z)
 P + e1 / a = A
 exit(P,Y) + e0 / a = A
 direct(P,Z) + e0 = B
 B + e0 = history(P)
 B + e1 [g] / a = A
table P:
 *X + e2 = Y
 Y + e2 / a = Z
 Z + e2 = X
''')
spec('hist2', '''
entry *
exit *
table M:
 *A + e0 = history(P)
 A + e1 = history(Q)
 P + e0 / a = history(Q)
 Q + e0 / a = history(P)
 P + e1 = A
 Q + e1 = A
 exit(P,Y) + e3 = Q
 exit(Q,Y) + e3 [g] = history(P)
table P:
 *X + e2 = Y
 Y + e2 / a = Z
 Z + e2 = X
table Q:
 *Z + e2 / a = Y
 Y + e2 = X
 X + e2 = Z
''')
spec('hist3', '''
table M:
 *A + e0 = history(P)
 A + e1 = history(Q)
 A + e2 = history(R)
 P + e3 = A
 Q + e3 = A
 R + e3 = A
 P + e1 = history(Q)
 Q + e2 = history(R)
 R + e0 = P
table P:
 *X + e4 = Y
 Y + e4 = X
table Q:
 *X + e4 = Y
 Y + e4 = X
table R:
 *Y + e4 = X
 X + e4 = Y
''')
spec('hist_regions', '''
entry *
exit *
table M:
 *A + e0 = history(P)
 *B + e1 = history(P)
 P + e2 [g] / a = A
 exit(P,Y) + e3 [g] / a = B
table P:
 *X + e4 [g] = Y
 Y + e4 [g] / a = X
''')
spec('hist_regions3', '''
table M:
 *A + e0 = history(P)
 *B + e0 [g] = history(Q)
 *C + e1 = history(R)
 P + e1 [g] = A
 Q + e1 / a = B
 R + e0 [g] / a = C
 A + e2 = P
 C + e2 = R
table P:
 *X + e3 = Y
 Y + e3 [g] = X
table Q:
 *U + e3 [g] = V
 V + e3 = U
table R:
 *X + e3 = U
 U + e3 [g] = X
''')
spec('hist_nested', '''
entry *
exit *
table M:
 *A + e0 = history(P)
 A + e1 = P
 P + e0 / a = A
 A + e3 = history(R)
table P:
 *X + e2 = Y
 Y + e2 = X
 X + e3 = history(R)
 Y + e3 = R
 R + e1 / a = Y
 exit(R,V) + e4 / a = X
table R:
 *U + e2 = V
 V + e2 / a = W
 W + e2 = U
''')
spec('hist_self', '''
entry *
exit *
table M:
 *A + e0 = P
 P + e0 / a = history(P)
 P + e1 [g] / a = P
 P + e3 = A
 A + e3 = history(P)
 direct(P,Y) + e4 = entry(P,X)
table P:
 *X + e2 = Y
 Y + e2 = X
''')
spec('hist_anon', '''
entry *
exit *
table M:
 *A + e0 = B
 B = history(P)
 P + e1 / a = A
 P + e3 = B
table P:
 *X + e2 = Y
 Y + e2 / a = Z
 Z [g] / a = X
 Z + e2 = X
''')
spec('hist_defer', '''
entry *
exit *
defer X: e1
table M:
 *A + e0 = history(P)
 P + e3 / a = A
 A + e1 = B
 B + e0 = history(P)
 B + e1 / a = A
table P:
 *X + e2 = Y
 Y + e1 / a = Z
 Y + e2 = X
 Z + e2 = X
''')
# ---------------------------------------------------------------- completion
spec('anon1', '''
entry *
exit *
table M:
 *A + e0 / a = B
 B = C
 C [g] / a = D
 C + e0 / a = A
 D = A
''')
spec('anon_loop', '''
entry *
exit *
table M:
 *A + e0 / a = B
 B [g] / a = C
 C [g] / a = B
 B + e1 / a = A
 C + e1 / a = A
 A + e2 [g] / a = C
''')
spec('anon_into', '''
entry *
exit *
table M:
 *A + e0 / a = B
 B = P
 exit(P,Z) / a = C
 C [g] / a = entry(P,Z)
 P + e1 / a = A
 C + e1 / a = A
 C + e2 = Q
table P:
 *X [g] / a = Y
 Y + e0 = Q
 exit(Q,V) [g] = Z
 Z + e2 / a = X
table Q:
 *U / a = T
 T = V
 V + e0 / a = U
 V + e2 = T
''')
spec('anon_comp', '''
entry *
exit *
table M:
 *A + e0 / a = B
 B = P
 P + e1 / a = A
 C [g] / a = entry(P,Y)
 exit(P,Z) / a = C
 C + e1 = A
table P:
 *X + e0 = Y
 Y [g] / a = Z
 Y + e0 = X
 Z + e0 / a = X
''')
spec('anon_compsrc', '''
entry *
exit *
table M:
 *A + e0 / a = P
 P [g] / a = B
 B [g] / a = P
 B + e0 = A
 P + e1 = A
table P:
 *X + e0 / a = Y
 Y + e0 / a = X
''')
spec('anon_self', '''
entry *
exit *
table M:
 *A + e0 / a = B
 B [g] / a = B
 B + e0 [g] / a = B
 B + e1 / a = A
internal M:
 + e2 / a
''')
spec('anon_init', '''
entry *
exit *
table M:
 *A = B
 A + e0 / a = C
 B + e0 / a = A
 C + e0 [g] / a = C
 C + e1 = A
internal M:
 + e2 [g]
''')
spec('anon_initg', '''
deps 1
table M:
 *A [g] / a = B
 A + e0 [g] / a = A
 A + e1 / a = A
 B + e0 / a = A
 B + e1 [g] = A
''')
spec('anon_long', 'table M:\n *A + e0 = S0\n' + '\n'.join(' S%d %s= S%d' % (i, '/ a ' if i % 2 else '', i + 1) for i in range(11))
     + '\n S11 [g] / a = A\n S11 + e1 = A')
spec('anon_pseudo', '''
entry *
exit *
table M:
 *A + e0 = B
 B [g] / a = direct(P,Y)
 B [g] = history(P)
 B + e0 = A
 P + e1 / a = A
 exit(P,Z) [g] / a = B
 exit(P,Z) + e0 = A
table P:
 *X + e2 = Y
 Y + e2 = Z
 Z + e2 = X
''')
spec('anon_defer', '''
entry *
exit *
defer A: e1
defer D: e2
table M:
 *A + e0 / a = B
 B [g] / a = C
 B + e1 / a = A
 C + e1 / a = D
 C + e2 / a = A
 D [g] / a = A
 D + e0 = C
''')
spec('anon_regions', '''
entry *
exit *
table M:
 *A + e0 / a = A2
 A2 [g] / a = A
 A [g] / a = A2
 *B + e0 / a = B2
 B2 [g] / a = B
 B [g] / a = B2
''')
spec('anon_regions0', '''
table M:
 *A + e0 / a = A2
 A2 [g] / a = A3
 A2 + e1 = A
 A3 + e0 / a = A
 *B + e0 [g] / a = B2
 B2 + e0 [g] / a = B
 B2 + e1 = B
''')
# ---------------------------------------------------------------- regions
spec('reg2', '''
entry *
exit *
table M:
 *A + e0 / a = A2
 A2 + e0 [g] / a = A
 A2 + e1 = A
 *B + e0 [g] / a = B2
 B2 + e1 [g] / a = B
 B2 + e2 = B
''')
spec('reg3', '''
deps 1
unexp
table M:
 *A + e0 = A2
 A2 + e1 [g] / a = A
 *B + e0 [g] / a = B2
 B2 + e0 / a = B
 *C + e1 / a = C2
 C2 + e0 [g] / a = C
''')
spec('reg4', '''
entry *
table M:
 *A + e0 / a = A2
 A2 + e0 / a = A
 *B + e1 / a = B2
 B2 + e0 / a = B
 *C + e0 [g] / a = C2
 C2 + e1 / a = C
 *D + e1 [g] / a = D2
 D2 + e1 [g] / a = D
''')
spec('reg6', 'table M:\n' + '\n'.join(' *%s + e%d / a = %s2\n %s2 + e%d %s/ a = %s' % (s, i % 3, s, s, (i + 1) % 3, '[g] ' if i == 4 else '', s)
                                      for i, s in enumerate('ABCDEF')))
spec('reg_comp', '''
entry *
exit *
table M:
 *A + e0 = P
 P + e1 / a = A
 *B + e0 [g] = Q
 Q + e1 [g] / a = B
table P:
 *X + e2 / a = Y
 Y + e2 = X
table Q:
 *U + e2 / a = V
 V + e0 = U
''')
spec('reg_comp3', '''
table M:
 *A + e0 = A2
 A2 + e1 = A
 *B + e0 = P
 P + e1 [g] / a = B
 *C + e1 = Q
 Q + e0 [g] / a = C
table P:
 *X + e2 = Y
 Y + e2 [g] = X
table Q:
 *X + e2 [g] = Y
 Y + e2 = X
''')
# two regions in the same composite
spec('reg_same', '''
entry *
exit *
table M:
 *A + e0 = P
 *B + e1 = P
 P + e2 [g] / a = A
 P + e3 [g] / a = B
table P:
 *X + e0 / a = Y
 Y + e1 [g] / a = X
''')
spec('reg_int', '''
table M:
 *A + e0 / a = A2
 A2 + e0 [g] = A
 *B + e1 / a = B2
 B2 + e1 [g] / a = B
internal M:
 + e2 / a
 + e0 [g] / a
internal A2:
 + e1 [g] / a
''')
spec('reg_defer', '''
entry *
defer A: e1
defer B2: e2
table M:
 *A + e0 / a = A2
 A2 + e1 / a = A
 A2 + e2 / a = A2
 *B + e0 [g] / a = B2
 B2 + e0 [g] / a = B
 B2 + e1 / a = B
 B + e2 / a = B
''')
spec('reg_pair', '''
table M:
 *A + e0 / a = B
 B + e0 / a = A
 *C + e0 [g] / a = A
 C + e1 / a = B
 B + e1 [g] / a = C
''')
# ---------------------------------------------------------------- internal
spec('int_root', '''
entry *
exit *
table M:
 *A + e0 = B
 B + e0 = A
 B + e1 [g] / a = A
internal M:
 + e1 / a
 + e2 [g] / a
 + e3
''')
spec('int_comp', '''
deps 1
entry *
exit *
table M:
 *A + e0 = P
 P + e1 / a = A
 A + e3 [g] = A
table P:
 *X + e0 / a = Y
 Y + e0 [g] / a = X
 Y + e3 / a = X
internal P:
 + e2 [g] / a
 + e2 [g] / a
 + e3 / a
''')
spec('int_simple', '''
entry *
exit *
table M:
 *A + e0 = B
 B + e0 / a = C
 C + e0 = A
 B + e2 [g] / a = B
 C + e4 = P
 P + e4 = A
internal B:
 + e1 / a
 + e2 / a
 + e3 [g]
internal C:
 + e1 [g] / a
 + e2 [g] / a
table P:
 *X + e0 = Y
 Y + e0 = X
internal Y:
 + e1 / a
''')
spec('int_two', '''
table M:
 *A + e0 = P
 A + e1 = Q
 P + e3 = A
 Q + e3 = A
table P:
 *X + e0 = Y
 Y + e0 = X
internal P:
 + e2 / a
 + e1 [g] / a
table Q:
 *X + e0 = Y
 Y + e0 = X
internal Q:
 + e2 [g] / a
 + e4 / a
''')
spec('int_hist', '''
entry *
exit *
table M:
 *A + e0 = history(P)
 P + e1 = A
internal M:
 + e2 / a
table P:
 *X + e3 = Y
 Y + e3 = X
internal P:
 + e4 / a
''')
spec('int_defer', '''
entry *
exit *
defer A: e1 e2
table M:
 *A + e0 = B
 B + e0 = A
 B + e3 / a = C
 C + e0 = A
internal M:
 + e1 / a
 + e3 [g] / a
internal B:
 + e2 [g] / a
internal C:
 + e2 / a
''')
spec('int_anon', '''
entry *
exit *
table M:
 *A + e0 / a = B
 A [g] / a = B
 B + e0 / a = A
internal M:
 + e1 / a
 + e2 [g] / a
''')
# ---------------------------------------------------------------- deferral
spec('def1', '''
entry *
exit *
defer A: e1 e2
table M:
 *A + e0 / a = B
 B + e1 / a = B
 B + e2 / a = B
 B + e0 = A
''')
spec('def2', '''
entry *
exit *
defer A: e1 e2 e3
defer B: e3
table M:
 *A + e0 / a = B
 B + e1 / a = B
 B + e2 / a = B
 B + e0 / a = C
 C + e3 / a = A
 C + e1 [g] / a = A
 C + e2 [g] / a = C
''')
spec('def_throw', '''
defer A: e1 e2
defer B: e1
table M:
 *A + e0 = B
 B + e2 / a = B
 B + e0 = C
 C + e1 / a = C
 C + e2 / a = C
 C + e0 = A
''')
spec('def_ping', '''
entry *
defer A: e1
defer B: e2
defer C: e1 e2
table M:
 *A + e2 / a = B
 B + e1 / a = C
 C + e0 / a = A
 A + e0 / a = B
 B + e0 / a = A
''')
spec('def_guard', '''
deps 1
unexp
defer A: e1 e2
table M:
 *A + e0 [g] / a = B
 B + e1 [g] / a = C
 B + e2 [g] / a = A
 C + e1 [g] / a = B
 C + e0 / a = A
''')
spec('def_comp', '''
entry *
exit *
defer X: e1
defer A: e2
table M:
 *A + e0 = P
 P + e2 / a = A
 A + e1 / a = A
table P:
 *X + e0 / a = Y
 Y + e1 / a = X
 Y + e3 [g] / a = Y
 X + e3 = Y
''')
spec('def_target', '''
entry *
exit *
defer B: e1 e2
table M:
 *A + e0 = B
 A + e1 / a = C
 A + e2 / a = A
 C + e0 / a = A
 C + e2 / a = B
internal M:
 + e3 [g] / a
 + e4 [g]
''')
spec('def_row', '''
entry *
defer A: e1
defer B: e1 e2
table M:
 *A + e1 / a = C
 A + e0 / a = B
 B + e2 / a = C
 B + e3 / a = A
 B + e0 = C
 C + e1 / a = C
 C + e2 [g] / a = A
''')
spec('def_unex', '''
unexp
defer A: e1 e2
table M:
 *A + e0 / a = B
 B + e3 / a = A
 B + e2 [g] / a = A
 C + e1 / a = A
 B + e0 = C
''')
spec('def_events', '''
defer A: e1 e2 e3 e4 e5 e6
table M:
 *A + e0 / a = B
 B + e1 / a = B
 B + e2 / a = B
 B + e3 / a = B
 B + e4 / a = B
 B + e5 / a = B
 B + e6 / a = A
''')
spec('def_hist', '''
defer Y: e1
defer A: e3
table M:
 *A + e0 = history(P)
 P + e1 / a = A
 A + e2 / a = A
table P:
 *X + e2 = Y
 Y + e2 / a = X
 X + e3 / a = Y
''')
# ---------------------------------------------------------------- dependencies
spec('dep4', '''
deps 4
unexp
entry *
exit *
table M:
 *A + e0 [g] / a = B
 B + e0 / a = A
internal M:
 + e1 [g] / a
''')
spec('dep_all', '''
deps 2
unexp
entry *
exit *
defer A: e2
table M:
 *A + e0 [g] / a = P
 P + e1 / a = B
 B [g] / a = A
 B + e2 / a3 = B
 B + e0 = history(P)
table P:
 *X + e0 [g] / a = Y
 Y + e2 = X
internal P:
 + e3 [g] / a
''')
spec('dep_regions', '''
deps 2
unexp
table M:
 *A + e0 [g] / a = A2
 A2 + e0 [g] / a = A
 A2 + e0 [g] / a = A2
 *B + e0 [g] / a = B2
 B2 + e1 / a = B
''')
spec('dep_defer', '''
deps 1
unexp
entry *
exit *
defer A: e1 e2
table M:
 *A + e0 / a = B
 B + e1 [g] / a = B
 B + e2 / a = A
internal M:
 + e3 / a
''')
spec('dep_hist', '''
deps 3
entry *
exit *
table M:
 *A + e0 / a = history(P)
 exit(P,Y) + e1 [g] / a = A
 P + e2 / a = A
 A + e1 = entry(P,Y)
table P:
 *X + e3 [g] / a = Y
 Y + e3 / a = X
''')
# ---------------------------------------------------------------- objects
spec('create1', '''
entry *
exit *
ndc N
table M:
 *A + e0 / create = N
 N + e1 / a = A
 N + e2 [g] / a = B
 B + e1 / a = A
 B + e0 / create = N
 N + e0 / create = N
''')
spec('create2', '''
entry N O
exit *
ndc N O
table M:
 *A + e0 / create = N
 N + e1 / create = O
 O + e0 / reuse = N
 O + e1 / a = A
 N + e2 / reuse = N
 N + e3 / a = A
''')
spec('create_guard', '''
ndc N
entry N
table M:
 *A + e0 / create = N
 A + e1 / a = A
 N + e0 [g] / reuse = N
 N + e0 [g] / create = N
 N + e1 [g] / a = A
 A + e2 = B
 B + e1 / a = A
 B + e0 / reuse = N
 N + e2 = B
''')
spec('create_defer', '''
entry *
ndc N
defer A: e1
table M:
 *A + e0 / create = N
 A + e2 = B
 B + e1 / create = N
 N + e1 / a = N2
 N2 + e0 = A
 N + e2 = A
''')
spec('create_comp', '''
exit *
entry *
ndc N
table M:
 *A + e0 = P
 P + e3 / a = A
table P:
 *X + e0 / create = N
 N + e1 / reuse = N
 N + e0 / a = X
 X + e1 / a = X
''')
spec('create_anon', '''
entry *
ndc N
table M:
 *A + e0 / a = B
 B / create = N
 N + e1 / reuse = N
 N + e0 / a = A
''')
spec('create_regions', '''
entry *
exit *
ndc N O
table M:
 *A + e0 / create = N
 N + e1 / a = A
 N + e2 / reuse = N
 *B + e0 / create = O
 O + e1 [g] / a = B
 O + e2 / create = O
''')
spec('objects', '''
deps 1
entry *
exit *
table M:
 *A + e0 [g] / a = P
 P + e1 / a = B
 B + e0 / a = history(P)
 B + e1 / a = entry(P,Y)
 exit(P,Y) + e2 [g] / a = A
 B + e2 / a = A
table P:
 *X + e0 / a = Y
 Y + e0 / a = A
 A + e0 / a = X
internal P:
 + e3 [g] / a
''')
spec('objects_same', '''
entry *
exit *
table M:
 *A + e0 = P
 A + e1 / a = Q
 A + e2 / a = X
 X + e2 / a = A
 P + e3 / a = A
 Q + e3 / a = A
table P:
 *X + e0 / a = Y
 Y + e0 / a = X
table Q:
 *Y + e0 / a = X
 X + e0 / a = Y
internal Q:
 + e4 / a
''')
# ---------------------------------------------------------------- chains
spec('chain1', '''
deps 2
entry *
exit *
table M:
 *A + e0 / a2 = B
 B + e0 [g] / a3 = A
 B + e1 / a6 = B
 A + e1 / n3 = A
 A + e2 / n5 = B
 B + e2 / a1 = A
''')
spec('chain2', '''
entry *
exit *
table M:
 *A + e0 / a4 = P
 P + e1 / a3 = A
 exit(P,Y) + e2 / n4 = A
 A + e1 [g] / a2 = entry(P,Y)
 A + e2 / n6 = history(P)
table P:
 *X + e0 / a2 = Y
 Y + e0 / a5 = X
internal P:
 + e3 / a3
 + e4 [g] / n3
''')
spec('chain3', '''
deps 1
defer A: e1
table M:
 *A + e0 / a3 = B
 B / a2 = C
 C [g] / n4 = D
 C + e0 / a8 = A
 D + e1 / a7 = C
 D + e0 / n7 = A
internal M:
 + e2 / a9
''')
spec('chain_regions', '''
entry *
table M:
 *A + e0 / a3 = A2
 A2 + e0 / n4 = A
 *B + e0 / a2 = B2
 B2 + e0 [g] / n5 = B
''')
# ---------------------------------------------------------------- log
spec('log1', '''
table M:
 *A + e0 / log = B
 B + e0 [g] / alog = A
 B + e1 / log = B
 A + e1 / a = A
internal M:
 + e2 / log
 + e3 [g] / alog
''')
spec('log2', '''
deps 2
entry *
table M:
 *A + e0 / log = P
 P + e1 / alog = A
 exit(P,Y) + e2 / log = A
 A + e1 / log = entry(P,Y)
 A + e2 / log = history(P)
 A + e3 [g] / log = B
 B / log = A
table P:
 *X + e0 / log = Y
 Y + e0 / a = X
internal P:
 + e3 / log
''')
spec('log3', '''
defer A: e1
table M:
 *A + e0 / log = A2
 A2 + e1 / log = A
 A2 + e0 [g] / log = A
 *B + e0 / alog = B2
 B2 + e0 [g] / log = B
 B2 + e1 [g] / log = B2
''')
# ---------------------------------------------------------------- mixed
spec('mix1', '''
deps 1
unexp
entry *
exit *
defer B: e2
table M:
 *A + e0 [g] / a = B
 A + e1 = P
 B + e1 / a = A
 P + e3 [g] = C
 exit(P,X) + e2 = A
 C + e2 = history(P)
 C + e0 = entry(P,Y)
 A [g] / a = C
table P:
 *X + e0 / a = Y
 Y + e1 [g] = X
internal P:
 + e2 [g] / a
''')
spec('mix2', '''
deps 1
entry *
exit *
defer X: e1
table M:
 *A + e0 / a = P
 P + e2 [g] / a = A
 *B + e1 / a = Q
 Q + e2 / a = B
 exit(Q,V) + e0 [g] / a = history(Q)
table P:
 *X + e3 [g] / a = Y
 Y + e3 / a = X
table Q:
 *U + e3 = V
 V + e3 [g] = U
internal Q:
 + e1 [g] / a
''')


def big_grid(n_parents, n_children):
    """Many composites x many leaf types: combined state indices above 255."""
    rows = ['*A + en = P0']
    t = []
    for i in range(n_parents):
        rows.append('P%d + en = %s' % (i, 'P%d' % (i + 1) if i + 1 < n_parents else 'A'))
        a, b = i % n_children, (i * 5 + 4) % n_children
        if a == b:
            b = (b + 1) % n_children
        t.append('table P%d:\n *C%d + es = C%d\n C%d + es = C%d' % (i, a, b, b, a))
    return 'table M:\n ' + '\n '.join(rows) + '\n' + '\n'.join(t)


def ring(n):
    return 'table M:\n *S0 + e0 = S1\n' + '\n'.join(' S%d + e0 = S%d' % (i, (i + 1) % n) for i in range(1, n)) \
        + '\n' + '\n'.join(' S%d + e1 = S0' % i for i in range(1, n, 9))
