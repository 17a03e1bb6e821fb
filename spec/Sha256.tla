------------------------------ MODULE Sha256 ------------------------------
(* SHA-256 (FIPS 180-4) over byte sequences; a 32-bit word is a pair of     *)
(* 16-bit halves <<hi, lo>>.                                                *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

LOCAL KK == <<
  <<17034,12184>>, <<28983,17553>>, <<46528,64463>>, <<59829,56229>>,
  <<14678,49755>>, <<23025,4593>>, <<37439,33444>>, <<43804,24277>>,
  <<55303,43672>>, <<4739,23297>>, <<9265,34238>>, <<21772,32195>>,
  <<29374,23924>>, <<32990,45566>>, <<39900,1703>>, <<49563,61812>>,
  <<58523,27073>>, <<61374,18310>>, <<4033,40390>>, <<9228,41420>>,
  <<11753,11375>>, <<19060,33962>>, <<23728,43484>>, <<30457,35034>>,
  <<38974,20818>>, <<43057,50797>>, <<45059,10184>>, <<48985,32711>>,
  <<50912,3059>>, <<54695,37191>>, <<1738,25425>>, <<5161,10599>>,
  <<10167,2693>>, <<11803,8504>>, <<19756,28156>>, <<21304,3347>>,
  <<25866,29524>>, <<30314,2747>>, <<33218,51502>>, <<37490,11397>>,
  <<41663,59553>>, <<43034,26187>>, <<49739,35696>>, <<51052,20899>>,
  <<53650,59417>>, <<54937,1572>>, <<62478,13701>>, <<4202,41072>>,
  <<6564,49430>>, <<7735,27656>>, <<10056,30540>>, <<13488,48309>>,
  <<14620,3251>>, <<20184,43594>>, <<23452,51791>>, <<26670,28659>>,
  <<29839,33518>>, <<30885,25455>>, <<33992,30740>>, <<36039,520>>,
  <<37054,65530>>, <<42064,27883>>, <<48889,41975>>, <<50801,30962>>>>
LOCAL H0 == <<
  <<27145,58983>>, <<47975,44677>>, <<15470,62322>>, <<42319,62778>>,
  <<20750,21119>>, <<39685,26764>>, <<8067,55723>>, <<23520,52505>>>>

LOCAL P2 == [i \in 0..16 |-> 2^i]
LOCAL XorW(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
LOCAL AndW(a, b) == <<a[1] & b[1], a[2] & b[2]>>
LOCAL NotW(a) == <<65535 - a[1], 65535 - a[2]>>
LOCAL AddW(a, b) == LET lo == a[2] + b[2]
                        hi == a[1] + b[1] + lo \div 65536
                    IN <<hi % 65536, lo % 65536>>
LOCAL Shr16(a, n) == <<a[1] \div P2[n], (a[2] \div P2[n]) + (a[1] % P2[n]) * P2[16-n]>>
LOCAL ShrW(a, n) == IF n >= 16 THEN Shr16(<<0, a[1]>>, n-16) ELSE Shr16(a, n)
LOCAL Rot16(a, n) == <<(a[1] \div P2[n]) + (a[2] % P2[n]) * P2[16-n], (a[2] \div P2[n]) + (a[1] % P2[n]) * P2[16-n]>>
LOCAL RotW(a, n) == IF n >= 16 THEN Rot16(<<a[2], a[1]>>, n-16) ELSE Rot16(a, n)
LOCAL X3(a, b, c) == XorW(a, XorW(b, c))

LOCAL Pad(s) == LET n == Len(s)
                    z == (55 - n) % 64
                IN s \o <<128>> \o [i \in 1..z |-> 0] \o <<0,0,0,0>>
                   \o <<(n \div 2097152) % 256, (n \div 8192) % 256, (n \div 32) % 256, (n * 8) % 256>>

LOCAL Word(p, i) == <<p[i]*256 + p[i+1], p[i+2]*256 + p[i+3]>>
LOCAL Schedule(p, off) ==
  FoldLeft(LAMBDA w, i :
     Append(w, AddW(AddW(X3(RotW(w[i-2], 17), RotW(w[i-2], 19), ShrW(w[i-2], 10)), w[i-7]),
                    AddW(X3(RotW(w[i-15], 7), RotW(w[i-15], 18), ShrW(w[i-15], 3)), w[i-16]))),
     [i \in 1..16 |-> Word(p, off + 4*i - 3)], [i \in 1..48 |-> i + 16])
LOCAL Compress(h, p, off) ==
  LET w == Schedule(p, off)
      step(s, i) ==
        LET t1 == AddW(AddW(s[8], X3(RotW(s[5], 6), RotW(s[5], 11), RotW(s[5], 25))),
                       AddW(XorW(AndW(s[5], s[6]), AndW(NotW(s[5]), s[7])), AddW(KK[i], w[i])))
            t2 == AddW(X3(RotW(s[1], 2), RotW(s[1], 13), RotW(s[1], 22)),
                       X3(AndW(s[1], s[2]), AndW(s[1], s[3]), AndW(s[2], s[3])))
        IN <<AddW(t1, t2), s[1], s[2], s[3], AddW(s[4], t1), s[5], s[6], s[7]>>
      e == FoldLeft(step, h, [i \in 1..64 |-> i])
  IN [i \in 1..8 |-> AddW(h[i], e[i])]
Sha256(s) ==
  LET p == Pad(s)
      h == FoldLeft(LAMBDA hh, b : Compress(hh, p, (b-1)*64), H0, [i \in 1..(Len(p) \div 64) |-> i])
  IN FlattenSeq([i \in 1..8 |-> <<h[i][1] \div 256, h[i][1] % 256, h[i][2] \div 256, h[i][2] % 256>>])
============================================================================
