----------------------------- MODULE SeriesTrace -----------------------------
EXTENDS Series, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE line
Clean(e) == e.left = <<0, 0>>                    \* no file and no memory is left behind
Near(v, out, rel, size) == DNear(v, out, DMul(rel, size))
VsopOk(e, six, col, unit) ==
   LET s == Vsop(six, e.t, e.limit)
       tol == DAdd("1e-15", DMul(DMul("2e-15", unit), DAdd(s.m, "1"))) IN
   IF col = 1 THEN DNearAngle(DMul(unit, s.v), e.out[col], DAdd("4e-15", tol)) /\ DLe("0", e.out[col]) /\ DLe(e.out[col], DAdd(DTwoPi, "1e-14"))
   ELSE DNear(DMul(unit, s.v), e.out[col], tol)
ShortOk(e) == e.rc < 0
Want(e) ==
   CASE e.op = "big" -> [c \in 1..3 |-> Vsop(e.six[c], e.t, e.limit).v]
     [] e.op = "short" -> DMul("1e-8", Vsop(e.six[1], e.t, e.limit).v)
     [] e.op = "moonargs" -> MoonArgs(e.polys, e.t)
     [] e.op = "moonlon" -> MoonLonDist(e.f, e.terms, e.limit)
     [] e.op = "moonlat" -> MoonLat(e.f, e.terms, e.limit)
     [] e.op = "pluto" -> Pluto(e.large, e.rows, e.t, e.limit)
     [] e.op = "frames" -> Frames(e.out[1], e.out[2], e.out[3], e.t)
     [] e.op = "plutoframes" -> Frames2000(e.place[1], e.place[2], e.place[3], e.t)
     [] e.op = "ps" -> LET p == Ps1996(e.block, e.jd) IN <<p.pos, p.vel>>
     [] e.op = "elp" -> ElpPlace(e.polys, e.planets, e.series, e.t, e.limit)
     [] OTHER -> ""
V3(o, k) == <<o[k], o[k + 1], o[k + 2]>>
\* tols: the code's obliquity of 2000, 23.4392911 degrees, is off by 2e-10
FramesOk(e, f, r, tols) == \A k \in 1..4 : VNear(f[k], V3(e.out, 3 * k + 1), DMul(DAdd("1e-30", DAbs(r)), tols[k]))
Ok(e) ==
   CASE e.op = "big" -> Clean(e) /\ e.rc = 0 /\ \A c \in 1..3 : VsopOk(e, e.six[c], c, "1")
     [] e.op = "cut" -> Clean(e) /\ ShortOk(e)
     [] e.op = "sun" -> Clean(e) /\ e.rc = 0 /\ \A c \in 1..3 : DNear(e.out[c], "0", "0")
     [] e.op = "short" -> VsopOk([t |-> e.t, limit |-> e.limit, out |-> IF e.value = 0 THEN <<e.out>> ELSE <<"0", e.out>>], e.six[1], IF e.value = 0 THEN 1 ELSE 2, "1e-8")
     [] e.op = "moonargs" -> LET a == MoonArgs(e.polys, e.t) IN
          /\ \A k \in 1..8 : /\ DNearAngle(a[k], e.out[k], DAdd("4e-15", DMul(e.size, "1e-17")))
                             /\ DLe("0", e.out[k]) /\ DLe(e.out[k], DAdd(DTwoPi, "1e-14"))
          /\ e.out[9] = e.t
     [] e.op = "moonlon" -> LET a == MoonLonDist(e.f, e.terms, e.limit) IN
          /\ DLe("0", e.lon) /\ DLe(e.lon, "360")
          /\ DNearAngle(Rad(a.lon), Rad(e.lon), DAdd("1e-13", DMul(a.m, "1e-21")))
          /\ DNear(a.r, e.r, DAdd("1e-9", DMul(a.m, "1e-16")))
     [] e.op = "moonlat" -> LET a == MoonLat(e.f, e.terms, e.limit) IN DNear(a.v, e.out, DAdd("1e-13", DMul(a.m, "1e-19")))
     [] e.op = "pluto" -> LET a == Pluto(e.large, e.rows, e.t, e.limit)  tol == DMul("2e-12", DAdd("1", DAbs(e.t))) IN
          /\ DNear(a.lon, e.out[1], tol) /\ DNear(a.lat, e.out[2], tol) /\ DNear(a.r, e.out[3], tol)
     [] e.op = "frames" ->
          /\ \A k \in 1..3 : DNear(e.place[k], e.out[k], DMul("1e-14", DAdd("1", DAbs(e.place[k]))))
          /\ FramesOk(e, Frames(e.out[1], e.out[2], e.out[3], e.t), e.out[3], <<"2e-14", "2e-14", "1e-11", "2.1e-10">>)
     [] e.op = "plutoframes" ->
          /\ FramesOk(e, Frames2000(e.place[1], e.place[2], e.place[3], e.t), e.place[3], <<"2.1e-10", "2.1e-10", "2.1e-10", "2e-14">>)
          \* the polar place is that of the first frame
          /\ VNear(VScale(e.out[3], Unit(e.out[1], e.out[2])), V3(e.out, 4), DMul(DAdd("1e-30", DAbs(e.place[3])), "2e-11"))
     [] e.op = "ps" ->
          /\ Clean(e) /\ e.loaded = 1 /\ e.blockno = PsBlock(e.head, e.ask)
          \* times within rounding of the block's end may be on either side
          /\ IF e.rc = -1 THEN DLt(e.jd, e.block.t0) \/ DLt(DAdd(e.block.t0, e.block.dt), DAdd(e.jd, "1e-9"))
             ELSE LET p == Ps1996(e.block, e.jd)  tol == DAdd("1e-25", DMul("1e-15", p.m)) IN
                  /\ DLe(e.block.t0, e.jd) /\ DLt(e.jd, DAdd(DAdd(e.block.t0, e.block.dt), "1e-9"))
                  /\ e.rc = 0 /\ VNear(p.pos, e.pos, tol) /\ VNear(p.pos, e.again, tol) /\ VNear(p.vel, e.vel, DMul(tol, DMul("4", p.w)))
     [] e.op = "psout" -> Clean(e) /\ (e.loaded = 1) = (PsCovers(e.head, e.ask) /\ e.cut = 0)
     [] e.op = "elp" -> LET p == ElpPlace(e.polys, e.planets, e.series, e.t, e.limit) IN
          Clean(e) /\ e.rc = 0 /\ DNear(p.r, e.out[4], e.tol) /\ VNear(p.xyz, V3(e.out, 1), DAdd(e.tol, DMul(DAbs(e.t), "1e-6")))
     [] OTHER -> FALSE
Init == line = 1
Next == /\ line <= Len(Trace) /\ line' = line + 1
        /\ IF Ok(Trace[line]) THEN TRUE ELSE PrintT(<<"REJECT", line, Want(Trace[line])>>)
Spec == Init /\ [][Next]_line
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
==============================================================================
