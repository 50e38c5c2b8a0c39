---------------------------- MODULE ClientBulletin ----------------------------
(* The station bulletin (type=norcomQnh): a file that can only be written.   *)
(* Each station gets the lowest valid pressure between two times, in whole   *)
(* hectopascals (rounded down), under a header with the times it stands for. *)
EXTENDS ClientStore

BulletinNeeds == {"lats", "lons", "elevs", "names", "numTimes", "startTime", "endTime"}
BulletinBad(o) ==
  \/ ~(BulletinNeeds \subseteq DOMAIN o)
  \/ Len(o.lats) # Len(o.lons) \/ Len(o.lats) # Len(o.elevs) \/ Len(o.lats) # Len(o.names)
  \/ BadLat(<<o.lats>>) \/ BadLon(<<o.lons>>) \/ o.startTime > o.endTime
BulletinOpen(o, path) ==
  IF BulletinBad(o) THEN [o |-> "no"]
  ELSE [o |-> "ok", s |->
    [fake |-> FALSE, ny |-> 1, nx |-> Len(o.lats), ne |-> 1, times |-> Tab([i \in 1..o.numTimes |-> i - 1]), ref |-> MV, lats |-> <<o.lats>>, lons |-> NormLons(<<o.lons>>), elevs |-> <<o.elevs>>,
     lafs |-> GridMV(1, Len(o.lats)), haselevs |-> TRUE, under |-> <<>>, names |-> {}, fs |-> <<>>, al |-> <<>>, tag |-> <<>>, old |-> {},
     from |-> [k |-> "bulletin", path |-> path, names |-> o.names, first |-> o.startTime, last |-> o.endTime]]]

\* ---- stamps: day of the month, hours and minutes of a number of seconds since 1970 ----------
DayOfMonth(days) ==
  LET z == days + 719468
      doe == z % 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
  IN doy - (153 * mp + 2) \div 5 + 1
RECURSIVE Wide(_, _, _)
Wide(t, n, pad) == IF Len(t) >= n THEN t ELSE IF pad = " " THEN Wide(t \o pad, n, pad) ELSE Wide(pad \o t, n, pad)
Digits(i, n) == Wide(ToString(i), n, "0")
StampOf(secs) == LET d == secs \div 86400  s == secs % 86400 IN Digits(DayOfMonth(d), 2) \o Digits(s \div 3600, 2) \o Digits((s \div 60) % 60, 2)

\* ---- the text ---------------------------------------------------------------------------------
NoBulletin == [k |-> "bulletin", lines |-> <<>>]
BulletinSpan(s) == s.from.first >= 0 /\ s.from.last < NT(s)
\* the valid pressures of a station between the two times
Pressures(s, n, j) == LET r(t) == Slots(s, n)[t + 1] IN {r(t).f[1][j][1] : t \in {t \in s.from.first..s.from.last : r(t).has /\ CValid(r(t).f[1][j][1])}}
LowestOf(S) == IF S = {} THEN 0 ELSE CHOOSE a \in S : \A b \in S : ~RLt(b, a)
BulletinRefused(s, vs) == Len(vs) > 0 /\ (~BulletinSpan(s) \/ \E j \in 1..s.nx : Pressures(s, vs[1].name, j) = {})
BulletinText(s, vs) ==
  IF Len(vs) = 0 THEN NoBulletin
  ELSE LET w == MaxIn({Len(s.from.names[j]) : j \in 1..s.nx})
           At(t) == StampOf(RFloor(s.times[t + 1]))
       IN [k |-> "bulletin",
           lines |-> <<"VALID " \o At(s.from.first) \o " - " \o At(s.from.last) \o " UTC.|">>
                     \o Tab([j \in 1..s.nx |-> "EST MIN QNH " \o Wide(s.from.names[j], w, " ") \o ": " \o Digits(RFloor(LowestOf(Pressures(s, vs[1].name, j))) \div 100, 4) \o " HPA|"])]
\* the first line carries the time at which it was written
BulletinOk(out, b) ==
  IF Len(b.lines) = 0 THEN Len(out.lines) = 0
  ELSE /\ Len(out.lines) = Len(b.lines) + 1 /\ Tail(out.lines) = b.lines
       /\ \E m \in (out.before \div 60)..(out.after \div 60) : out.lines[1] = "FBNO52 ENNC " \o StampOf(m * 60) \o "||"
=============================================================================
