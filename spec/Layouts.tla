-------------------------------- MODULE Layouts --------------------------------
(* The byte layouts of the instrument formats and what they mean (F04; also the *)
(* records of F02, F03 and F06).                                                *)
(* A file is a sequence of fields; the driver packs them without knowing the    *)
(* formats.  Record(fmt, g, d) states the fields of a file of the format that   *)
(* holds the codes g, with d as dice for its options, and the topography that   *)
(* it describes: height = za * code + zb in micrometres, spacings, and layers.  *)
EXTENDS Grid, Terms, TLC

Var(n) == [op |-> "var", n |-> n]
R(S) == RandomElement(S)
Pick(s, k) == s[(k % Len(s)) + 1]
\* fields
Num(t, x) == [t |-> t, v |-> x]
Arr(t, s) == [t |-> t, a |-> s]
Str(n, x) == [t |-> "s", n |-> n, v |-> x]
Zeros(n) == [t |-> "z", n |-> n]
At(p) == [t |-> "at", n |-> p]
Text(parts) == [t |-> "text", p |-> parts]
Sized(t, fs) == [t |-> "sized", w |-> t, f |-> fs]
Padded(n, c, fs) == [t |-> "padded", n |-> n, c |-> c, f |-> fs]
Zlib(fs) == [t |-> "zlib", f |-> fs]
LenOf(t, fs) == [t |-> "len", w |-> t, f |-> fs]
Packed(how, fs) == [t |-> how, f |-> fs]
Entry(name, fs) == [name |-> name, f |-> fs]
Archive(es, stored) == [t |-> "zip", e |-> es, stored |-> stored]
Png(h, w, ch, s) == [t |-> "png", h |-> h, w |-> w, ch |-> ch, a |-> s]
Byte(s) == Arr("<u1", s)

\* the k-th point of a grid, row by row
Item(g, k) == g[((k - 1) \div NCols(g)) + 1][((k - 1) % NCols(g)) + 1]
Coded(g, bad) == [k \in 1..Len(Flat(g)) |-> IF Item(g, k) = NaN THEN bad ELSE Item(g, k)]
\* terms of codes, for formats with floating point heights in steps of 1/8
Eighths(g, bad) == [k \in 1..Len(Flat(g)) |-> IF Item(g, k) = NaN THEN bad ELSE Q(Item(g, k), 8)]
\* (the empty sequence makes TLC evaluate a function once)
Map(g, F(_)) == [i \in 1..NRows(g) |-> [j \in 1..NCols(g) |-> F(g[i][j])] \o <<>>] \o <<>>
Full(g) == Map(g, LAMBDA x : IF x = NaN THEN 3 ELSE x)
Positive(g) == Map(g, LAMBDA x : IF x = NaN THEN NaN ELSE Abs(x))
Small(g) == Map(g, LAMBDA x : IF x = NaN THEN NaN ELSE Abs(x) % 256)
Layer(name, h, w, ch, s) == [name |-> name, h |-> h, w |-> w, ch |-> ch, v |-> s]
\* image contents
Pixels(n, k) == [i \in 1..n |-> (i * 37 + k * 11) % 251]
Gray3(n, k) == [i \in 1..(3 * n) |-> Pixels(n, k)[((i - 1) \div 3) + 1]]

\* dyadic numbers, so that they are exact in single precision
Dyadic(k) == Pick(<<Q(1, 2), I(1), Q(5, 4), Q(3, 1024), I(250), Q(1, 64)>>, k)
Lateral(k) == Pick(<<Q(1, 2), I(1), Q(5, 16), Q(1, 64), I(12), Q(7, 4)>>, k)

Meaning(g, za, zb, sx, sy, layers) ==
    [g |-> g, za |-> za, zb |-> zb, sx |-> sx, sy |-> sy, layers |-> layers, free |-> FALSE, meta |-> <<>>, enc |-> "utf-8"]
\* heights up to a constant
Free(m) == [m EXCEPT !.free = TRUE]
File(fmt, suffix, fields, m) == [fmt |-> fmt, suffix |-> suffix, fields |-> fields, m |-> m]

\* What the file says about the measurement: names with a text, a number or a moment.
\* A text is judged without surrounding blanks; a date may be given as it is written or as the moment.
MText(k, v) == [k |-> k, t |-> "text", v |-> v, n |-> I(0), w |-> ""]
MNum(k, x) == [k |-> k, t |-> "num", v |-> "", n |-> x, w |-> ""]
MTime(k, v) == [k |-> k, t |-> "time", v |-> v, n |-> I(0), w |-> ""]
MDate(k, v, written) == [k |-> k, t |-> "date", v |-> v, n |-> I(0), w |-> written]
Says(m, enc, entries) == [m EXCEPT !.meta = entries, !.enc = enc]
\* dice 17 to 30 decide the metadata.  Texts: {mu}, {oe}, {ss}, {deg} and {kanji} stand for characters beyond ASCII.
Enc(d) == Pick(<<"utf-8", "utf-8", "latin-1", "cp437">>, d[17])
Words(d, k) == IF d[17] % 4 = 1 THEN Pick(<<"a title", "sample 5", "x">>, d[k])
               ELSE Pick(<<"Gr{oe}{ss}e", "5 {mu}m", "a b", "{oe}", "20 {deg}C", "plain">>, d[k])
EText(e, parts) == [t |-> "text", p |-> parts, e |-> e]
EStr(e, n, x) == [t |-> "s", n |-> n, v |-> x, e |-> e]
Days == <<<<2020, 2, 3, "Mon">>, <<2019, 12, 31, "Tue">>, <<2024, 2, 29, "Thu">>, <<1999, 11, 5, "Fri">>, <<2012, 10, 11, "Thu">>, <<2008, 7, 1, "Tue">>>>
MonthNames == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
D2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Moment(d) == LET k == Pick(Days, d[18]) IN [y |-> k[1], mo |-> k[2], dd |-> k[3], wd |-> k[4], h |-> d[19] % 24, mi |-> d[20], s |-> d[21]]
Clock(m) == D2(m.h) \o ":" \o D2(m.mi) \o ":" \o D2(m.s)
Date(m) == ToString(m.y) \o "-" \o D2(m.mo) \o "-" \o D2(m.dd)
Iso(m) == Date(m) \o "T" \o Clock(m)
IsoMinute(m) == Date(m) \o "T" \o D2(m.h) \o ":" \o D2(m.mi) \o ":00"

UnitNames == <<"m", "mm", "um", "nm", "pm", "cm">>
MetreExp(u) == CASE u = "m" -> 0 [] u = "cm" -> -2 [] u = "mm" -> -3 [] u = "um" -> -6 [] u = "nm" -> -9 [] u = "pm" -> -12
\* factor from the unit to micrometres
ToUm(u) == LET e == MetreExp(u) + 6 IN IF e >= 0 THEN Pow(I(10), e) ELSE Over(I(1), Pow(I(10), -e))
Um(x, u) == Times(x, ToUm(u))

-----------------------------------------------------------------------------
(* Zygo MetroPro *)
Dat(g0, d) ==
    LET g == g0 ny == NRows(g) nx == NCols(g)
        version == (d[1] % 3) + 1
        magic == <<136, 27, 3, 110 + version>>
        size == IF version = 3 THEN 4096 ELSE 834
        \* 0: none, 1: as large as the heights, 2: smaller, 3: as large, with invalid points, 4: two images, each of one grey value
        inten == d[2] % 5
        images == IF inten = 4 THEN 2 ELSE 1
        ah == IF inten = 2 THEN 1 ELSE ny aw == IF inten = 2 THEN 2 ELSE nx
        pix == [i \in 1..(ah * aw) |-> IF inten = 3 /\ i = 1 THEN 65535 ELSE IF inten = 4 THEN d[3] % 200 ELSE Pixels(ah * aw, d[3])[i]]
        res == (d[4] % 3) + 1
        points == CASE res = 1 -> 4096 [] res = 2 -> 32768 [] res = 3 -> 131072
        S == Pick(<<Q(1, 2), I(1)>>, d[5]) W == Pick(<<Q(1, 2097152), Q(5, 8388608)>>, d[6]) O == Pick(<<I(1), Q(9, 8)>>, d[7])
        lat == Pick(<<Q(1, 1048576), Q(3, 4194304), Q(1, 1024)>>, d[8])
        bad == Pick(<<2147483640, 2147483646, 2147483647>>, d[9])
        step == Um(lat, "m")
        e == Enc(d) tm == d[22] * 1000003
        w1 == Words(d, 23) w2 == Words(d, 24) w3 == Words(d, 25) w4 == Words(d, 26)
        mag == Pick(<<I(10), Q(5, 2), Q(50, 1)>>, d[27])
        says == <<MText("swinfo_date", Iso(Moment(d))), MNum("swinfo_vers_maj", I(7)), MNum("swinfo_vers_min", I(d[28])), MNum("time_stamp", I(tm)), MText("comment", w1),
                  MNum("num_aperture", Q(1, 4)), MNum("magnification", mag), MText("obj_name", w2), MText("part_name", w3), MText("part_ser_num", w4), MNum("camera_width", I(nx)),
                  MNum("camera_height", I(ny)), MNum("refractive_index", Q(3, 2))>>
    IN File("dat", ".dat",
        <<Byte(magic), Num(">u2", version), Num(">u4", size), At(12), Str(30, Iso(Moment(d))), Num(">i2", 7), Num(">i2", d[28]), At(48), Num(">i2", 0), Num(">i2", 0)>>
        \o (IF inten = 0 THEN <<Num(">u2", 0), Num(">u2", 0), Num(">u2", 0), Num(">i2", 0), Num(">u4", 0)>>
            ELSE <<Num(">u2", aw), Num(">u2", ah), Num(">u2", images), Num(">i2", 255), Num(">u4", 2 * aw * ah * images)>>)
        \o <<Num(">i2", 0), Num(">i2", 0), Num(">u2", nx), Num(">u2", ny), Num(">u4", 4 * nx * ny), Num(">i4", tm), EStr(e, 82, w1), At(164), Num(">f4", S), Num(">f4", W), Num(">f4", Q(1, 4)),
             Num(">f4", O), Num(">f4", mag), Num(">f4", lat), At(218), Num(">i2", res), At(234), Num(">i2", nx), Num(">i2", ny), At(246), EStr(e, 12, w2), EStr(e, 40, w3),
             At(320), EStr(e, 40, w4), Num(">f4", Q(3, 2)), At(size)>>
        \o (IF inten = 0 THEN <<>> ELSE [i \in 1..images |-> Arr(">u2", pix)])
        \o <<Arr(">i4", Coded(g, bad))>>,
        Says(Meaning(g, Um(Over(Times(Times(S, W), O), I(points)), "m"), I(0), step, step,
                CASE inten = 0 -> <<>> [] inten = 4 -> <<Layer("Intensity_0", ah, aw, 1, pix), Layer("Intensity_1", ah, aw, 1, pix)>>
                  [] OTHER -> <<Layer("Intensity", ah, aw, 1, pix)>>), e, says))

(* FITS: cards of 80 characters, blocks of 2880 bytes *)
Card(parts) == Padded(80, 32, <<Text(parts)>>)
ECard(e, parts) == Padded(80, 32, <<EText(e, parts)>>)
KeyVal(k, parts) == Card(<<[p |-> k, w |-> 8], "= ">> \o parts)
Fits(g0, d) ==
    LET bits == Pick(<<16, 32, 64, -32, -64, 8>>, d[1])
        hasMask == d[2] % 3 # 0
        g1 == IF bits = 8 THEN Small(g0) ELSE g0
        g == IF hasMask THEN g1 ELSE Full(g1)
        ny == NRows(g) nx == NCols(g)
        dt == CASE bits = 16 -> ">i2" [] bits = 32 -> ">i4" [] bits = 64 -> ">i8" [] bits = -32 -> ">f4" [] bits = -64 -> ">f8" [] bits = 8 -> "<u1"
        float == bits < 0
        data == IF float THEN Arr(dt, Eighths(g, Q(77, 8))) ELSE Arr(dt, Coded(g, 77))
        ux == Pick(UnitNames, d[3]) uy == Pick(UnitNames, d[4]) uz == Pick(UnitNames, d[5])
        oneUnit == d[6] % 2 = 0
        md == Dyadic(d[7]) mh == Dyadic(d[8]) dx == Lateral(d[9]) dy == Lateral(d[10])
        long == d[11] % 4 = 0       \* a header that continues in the next block
        filler == [i \in 1..(IF long THEN 40 ELSE 1) |-> Card(<<IF i % 2 = 0 THEN "COMMENT a comment = 5 / x" ELSE "HISTORY it was measured">>)]
        Ext(name, b, arr) == <<Padded(2880, 32, <<Card(<<"XTENSION= 'IMAGE   '           / image extension">>), KeyVal("BITPIX", <<I(b)>>), KeyVal("NAXIS", <<I(2)>>),
                                                 KeyVal("NAXIS1", <<I(nx), " / points">>), KeyVal("NAXIS2", <<I(ny)>>), KeyVal("EXTNAME", <<"'", name, "'">>)>>
                                 \o (IF long THEN filler ELSE <<>>) \o <<Card(<<"END">>)>>),
                               Padded(2880, 0, <<arr>>)>>
        heights == Ext("HEIGHTS", bits, data)
        mask == IF hasMask THEN Ext("MASK", 8, Byte([k \in 1..(nx * ny) |-> IF Item(g, k) = NaN THEN 0 ELSE 1])) ELSE <<>>
        pix == Pixels(nx * ny, d[12])
        image == IF d[13] % 2 = 0 THEN Ext("INTENSITY", 8, Byte(pix)) ELSE <<>>
        e == Enc(d) w1 == Words(d, 23) w2 == Pick(<<"a/b", "N/A", "x=1", "plain">>, d[24]) x == Dyadic(d[25])
        cards == <<ECard(e, <<[p |-> "OBJECT", w |-> 8], "= '", w1, "'">>), ECard(e, <<[p |-> "INSTRUME", w |-> 8], "= '", w2, "' / the instrument">>),
                   KeyVal("DATE-OBS", <<"'", Iso(Moment(d)), "'">>), KeyVal("EXPTIME", <<x, " / in s">>), KeyVal("COUNT", <<I(-d[26])>>)>>
        says == <<MText("OBJECT", w1), MText("INSTRUME", w2), MDate("DATE-OBS", Iso(Moment(d)), Iso(Moment(d))), MNum("EXPTIME", x), MNum("COUNT", I(-d[26])), MNum("BITPIX", I(8)),
                  MText("UNITX", ux), MText("UNITZ", uz), MNum("DELTAX", dx), MNum("UnitMultiplicatorHeights", mh)>>
    IN File("fits", Pick(<<".fits", ".fit", ".fts">>, d[14]),
        <<Padded(2880, 32, <<KeyVal("SIMPLE", <<"                   T / conforms">>), KeyVal("BITPIX", <<I(8)>>), KeyVal("NAXIS", <<I(0)>>)>> \o filler \o cards
            \o <<KeyVal("UNITX", <<"'", ux, "      '">>)>> \o (IF oneUnit THEN <<>> ELSE <<KeyVal("UNITY", <<"'", uy, "'">>)>>)
            \o <<KeyVal("UNITZ", <<"'", uz, "'  / heights">>), KeyVal("DELTAX", <<dx>>), KeyVal("DELTAY", <<dy>>),
                 Card(<<"HIERARCH UnitMultiplicatorDeltas = ", md>>), Card(<<"HIERARCH UnitMultiplicatorHeights = ", mh, " / scale">>), Card(<<"END">>)>>)>>
        \o (CASE d[15] % 3 = 0 -> heights \o mask \o image [] d[15] % 3 = 1 -> mask \o heights \o image [] OTHER -> image \o heights \o mask),
        Says(Meaning(g, Um(Times(mh, IF float THEN Q(1, 8) ELSE I(1)), uz), I(0), Um(Times(md, dx), ux), Um(Times(md, dy), IF oneUnit THEN ux ELSE uy),
                IF image = <<>> THEN <<>> ELSE <<Layer("Intensity", ny, nx, 1, pix)>>), e, says))

(* Gwyddion: a tree of named components *)
CStr(x) == <<Text(<<x>>), Byte(<<0>>)>>
Comp(name, type, fs) == CStr(name) \o <<Text(<<type>>)>> \o fs
Obj(name, fs) == CStr(name) \o <<Sized("<u4", fs)>>
SIUnit(u) == Obj("GwySIUnit", Comp("unitstr", "s", CStr(u)))
Field(nx, ny, xr, yr, uxy, uz, arr) ==
    Obj("GwyDataField", Comp("xres", "i", <<Num("<i4", nx)>>) \o Comp("yres", "i", <<Num("<i4", ny)>>) \o Comp("xreal", "d", <<Num("<f8", xr)>>)
        \o Comp("yreal", "d", <<Num("<f8", yr)>>) \o (IF uxy = "" THEN <<>> ELSE Comp("si_unit_xy", "o", SIUnit(uxy)))
        \o (IF uz = "-" THEN <<>> ELSE Comp("si_unit_z", "o", SIUnit(uz))) \o Comp("data", "D", <<Num("<u4", nx * ny), arr>>))
Curve(xs) == Obj("GwyGraphCurveModel", Comp("description", "s", CStr("a curve")) \o Comp("xdata", "D", <<Num("<u4", Len(xs)), Arr("<f8", xs)>>)
                                        \o Comp("ydata", "D", <<Num("<u4", Len(xs)), Arr("<f8", xs)>>))
Gwy(g0, d) ==
    LET hasMask == d[1] % 3 # 0
        g == IF hasMask THEN g0 ELSE Full(g0)
        ny == NRows(g) nx == NCols(g)
        uxy == Pick(<<"m", "m", "um", "nm", "mm">>, d[2]) uz == Pick(<<"m", "m", "um", "nm">>, d[3])
        px == Lateral(d[4]) py == Lateral(d[5])
        key == Pick(<<"0", "1", "7", "12">>, d[6])
        \* a second channel: none; no length; a length, but another title; a length and an equally good title at a higher number
        \* an image without lateral unit (which cannot belong to the topography); a length, but no title
        other == d[7] % 6
        key2 == Pick(<<"3", "20">>, d[8])
        pix == Pixels(nx * ny, d[9])
        second == CASE other = 0 -> <<>>
                    [] other = 1 -> Comp("/" \o key2 \o "/data", "o", Field(nx, ny, Times(I(nx), px), Times(I(ny), py), uxy, "-", Arr("<f8", pix)))
                                    \o Comp("/" \o key2 \o "/data/title", "s", CStr("Intensity"))
                    [] other = 2 -> Comp("/2/data", "o", Field(nx, ny, Times(I(nx), px), Times(I(ny), py), uxy, "m", Arr("<f8", pix)))
                                    \o Comp("/2/data/title", "s", CStr("Phase"))
                    [] other = 3 -> Comp("/20/data", "o", Field(nx, ny, Times(I(nx), px), Times(I(ny), py), uxy, "m", Arr("<f8", pix)))
                                    \o Comp("/20/data/title", "s", CStr("Height 2"))
                    [] other = 4 -> Comp("/2/data", "o", Field(nx, ny, Times(I(nx), px), Times(I(ny), py), "", "-", Arr("<f8", pix)))
                                    \o Comp("/2/data/title", "s", CStr("Mixed"))
                    [] other = 5 -> Comp("/2/data", "o", Field(nx, ny, Times(I(nx), px), Times(I(ny), py), uxy, "m", Arr("<f8", pix)))
        mask == IF hasMask THEN Comp("/" \o key \o "/mask", "o", Field(nx, ny, Times(I(nx), px), Times(I(ny), py), uxy, "-",
                                       Arr("<f8", [k \in 1..(nx * ny) |-> IF Item(g, k) = NaN THEN 1 ELSE 0]))) ELSE <<>>
        w1 == Words(d, 23) w2 == Words(d, 24)
        \* a text is as long as it is
        long == IF d[25] % 6 = 0 THEN <<Text(<<[p |-> "long", w |-> Pick(<<4095, 4096, 5000>>, d[26])], ".">>), Byte(<<0>>)>> ELSE CStr("short")
        other2 == Comp("/9/meta", "o", Obj("GwyContainer", Comp("Comment", "s", CStr("of another channel"))))
        meta == IF d[10] % 2 = 0 THEN Comp("/" \o key \o "/meta", "o", Obj("GwyContainer", Comp("Comment", "s", CStr(w1)) \o Comp("Long", "s", long)
                                                \o Comp("Operator", "s", CStr(w2)) \o Comp("Date", "s", CStr(Iso(Moment(d)))))) \o other2 ELSE <<>>
        says == IF meta = <<>> THEN <<>> ELSE <<MText("Comment", w1), MText("Operator", w2), MDate("Date", Iso(Moment(d)), Iso(Moment(d)))>>
        main == Comp("/" \o key \o "/data", "o", Field(nx, ny, Times(I(nx), px), Times(I(ny), py), uxy, uz, Arr("<f8", Eighths(g, I(9)))))
        title == Comp("/" \o key \o "/data/title", "s", CStr(Pick(<<"Height", "Topography", "My height">>, d[11])))
        misc == Comp("/" \o key \o "/base/palette", "s", CStr("Gray")) \o Comp("/" \o key \o "/data/visible", "b", <<Byte(<<1>>)>>)
                \o Comp("/numbers", "I", <<Num("<u4", 3), Arr("<i4", <<1, 2, 3>>)>>) \o Comp("/wide", "q", <<Num("<i8", 5)>>) \o Comp("/letter", "c", <<Byte(<<65>>)>>)
                \o Comp("/5/graph/lastid", "i", <<Num("<i4", 3)>>) \o Comp("/5/graph/graph/1/visible", "b", <<Byte(<<1>>)>>) \o Comp("/brick/9/title", "s", CStr("Volume"))
                \o Comp("/5/graph/graph/1", "o", Obj("GwyGraphModel", Comp("title", "s", CStr("Profiles"))
                        \o Comp("curves", "O", <<Num("<u4", 2)>> \o Curve(<<0, 1, 2>>) \o Curve(<<5>>))))
                \o Comp("/names", "S", <<Num("<u4", 3)>> \o CStr("one") \o CStr("") \o CStr("three")) \o Comp("/letters", "C", <<Num("<u4", 2), Byte(<<0, 200>>)>>)
                \o Comp("/" \o key \o "/select/pointer", "o", Obj("GwySelectionPoint", Comp("max", "i", <<Num("<i4", 1)>>)
                        \o Comp("data", "D", <<Num("<u4", 2), Arr("<f8", <<1, 2>>)>>))) \o Comp("/none", "D", <<Num("<u4", 0)>>)
    IN File("gwy", ".gwy",
        <<Text(<<"GWYP">>)>> \o Obj("GwyContainer", CASE d[12] % 3 = 0 -> main \o title \o mask \o second \o meta
                                                     [] d[12] % 3 = 1 -> second \o meta \o misc \o main \o mask \o title
                                                     [] OTHER -> mask \o title \o second \o main \o meta \o misc),
        Says(Meaning(g, Um(Q(1, 8), uz), I(0), Um(px, uxy), Um(py, uxy),
                IF other = 1 THEN <<Layer("Intensity", ny, nx, 1, pix)>> ELSE <<>>), "utf-8", says))

(* NanoFocus: heights as 16-bit fractions of the range *)
Nms(g0, d) ==
    LET g == Full(Positive(g0)) ny == NRows(g) nx == NCols(g)
        zmin == Pick(<<I(0), I(-40), Q(5, 2)>>, d[1]) span == Dyadic(d[2])
        dx == Lateral(d[3]) dy == Lateral(d[4])
        pix == Pixels(nx * ny, d[5])
    IN File("nms", ".nms",
        <<At(16), Num("<f8", zmin), Num("<f8", Plus(zmin, span)), At(1076), Text(<<Date(Moment(d)), " ", D2(Moment(d).h), ":", D2(Moment(d).mi)>>), At(1368), Num("<u4", nx), Num("<u4", ny),
          Num("<f8", dx), Num("<f8", dy), At(3468), Arr("<u2", Flat(g)), Byte(pix)>>,
        Says(Free(Meaning(g, Over(span, I(65534)), I(0), Over(dx, I(1000)), Over(dy, I(1000)), <<Layer("Grayscale", ny, nx, 1, pix)>>)),
             "utf-8", <<MTime("date", IsoMinute(Moment(d)))>>))

(* Wyko: a directory of blocks, columns from left to right, each from bottom to top *)
Upward(g) == [k \in 1..(NRows(g) * NCols(g)) |-> g[NRows(g) - ((k - 1) % NRows(g))][((k - 1) \div NRows(g)) + 1]] \o <<>>
Block(name, type, size, fs) == [name |-> name, type |-> type, size |-> size, f |-> fs]
Opd(g0, d) ==
    LET ny == NRows(g0) nx == NCols(g0)
        item == Pick(<<2, 4, 2, 4, 1>>, d[1])
        g == IF item = 1 THEN Full(Small(g0)) ELSE g0
        bad == IF item = 2 THEN 32767 ELSE Pow(I(10), 38)
        up == Upward(g)
        cells == [k \in 1..(nx * ny) |-> IF up[k] = NaN THEN bad ELSE IF item = 4 THEN Q(up[k], 8) ELSE up[k]]
        head(n) == <<Num("<u2", nx), Num("<u2", ny), Num("<u2", n)>>
        raw == Block("RAW_DATA", 3, 6 + item * nx * ny, head(item) \o <<Arr(CASE item = 2 -> "<i2" [] item = 4 -> "<f4" [] OTHER -> "<u1", cells)>>)
        px == [i \in 1..ny |-> [j \in 1..nx |-> (i * 31 + j * 7 + d[2]) % 251]]
        image == IF d[3] % 2 = 0 THEN <<Block("Image", 3, 6 + nx * ny, head(1) \o <<Byte(Upward(px))>>)>> ELSE <<>>
        hasW == d[4] % 4 # 0 hasM == d[5] % 4 # 0 hasA == d[6] % 4 # 0 hasP == d[7] % 4 # 0
        W == Pick(<<Q(2531, 4), I(500)>>, d[8]) M == Pick(<<1, 2, 16>>, d[9]) A == Pick(<<I(1), Q(9, 8), Q(3, 4)>>, d[10]) P == Pick(<<Q(1, 1024), Q(3, 2048)>>, d[11])
        numbers == (IF hasW THEN <<Block("Wavelength", 7, 4, <<Num("<f4", W)>>)>> ELSE <<>>) \o (IF hasM THEN <<Block("Mult", 6, 2, <<Num("<i2", M)>>)>> ELSE <<>>)
                   \o (IF hasA THEN <<Block("Aspect", 7, 4, <<Num("<f4", A)>>)>> ELSE <<>>)
                   \o (IF hasP THEN <<Block("Pixel_size", IF d[12] % 2 = 0 THEN 7 ELSE 8, IF d[12] % 2 = 0 THEN 4 ELSE 8, <<Num(IF d[12] % 2 = 0 THEN "<f4" ELSE "<f8", P)>>)>> ELSE <<>>)
        e == Enc(d) w1 == Words(d, 23) w2 == Words(d, 24) m == Moment(d)
        texts == <<Block("Title", 5, 20, <<EStr(e, 20, w1)>>), Block("Date", 5, 10, <<Text(<<D2(m.mo), "/", D2(m.dd), "/", I(m.y)>>)>>), Block("Time", 5, 8, <<Text(<<Clock(m)>>)>>),
                   Block("Empty", 5, 4, <<Zeros(4)>>), Block("Long", 12, 4, <<Num("<i4", 70000 - d[25])>>), Block("Note", 5, 30, <<EStr(e, 30, w2)>>),
                   Block("Short", 6, 2, <<Num("<i2", -d[26])>>), Block("Float", 7, 4, <<Num("<f4", Dyadic(d[27]))>>), Block("Double", 8, 8, <<Num("<f8", Dyadic(d[28]))>>)>>
        says == <<MText("Title", w1), MTime("timestamp", Iso(m)), MNum("Long", I(70000 - d[25])), MText("Note", w2), MNum("Short", I(-d[26])), MNum("Float", Dyadic(d[27])),
                  MNum("Double", Dyadic(d[28]))>> \o (IF hasM THEN <<MNum("Mult", I(M))>> ELSE <<>>) \o (IF hasA THEN <<MNum("Aspect", A)>> ELSE <<>>)
        blocks == CASE d[13] % 3 = 0 -> <<raw>> \o numbers \o image \o texts [] d[13] % 3 = 1 -> texts \o numbers \o <<raw>> \o image [] OTHER -> image \o numbers \o texts \o <<raw>>
        entry(b) == <<Str(16, b.name), Num("<i2", b.type), Num("<i4", b.size), Num("<u2", 0)>>
        Cat[k \in 0..Len(blocks)] == IF k = 0 THEN <<>> ELSE Cat[k - 1] \o entry(blocks[k])
        Body[k \in 0..Len(blocks)] == IF k = 0 THEN <<>> ELSE Body[k - 1] \o blocks[k].f
        sx == Um(IF hasP THEN P ELSE I(1), "mm")
    IN File("opd", ".opd",
        <<Byte(<<1, 0>>)>> \o entry(Block("Directory", 1, 24 * (Len(blocks) + 1), <<>>)) \o Cat[Len(blocks)] \o Body[Len(blocks)],
        Says(Meaning(g, Um(Over(Over(IF hasW THEN W ELSE I(1), IF hasM THEN I(M) ELSE I(1)), IF item = 4 THEN I(8) ELSE I(1)), "nm"), I(0), sx,
                IF hasA THEN Times(sx, A) ELSE sx, IF image = <<>> THEN <<>> ELSE <<Layer("Grayscale", ny, nx, 1, Flat(px))>>), e, says))

(* OmniSurf3D *)
Os3d(g, d) ==
    LET ny == NRows(g) nx == NCols(g) dx == Lateral(d[1]) dy == Lateral(d[2])
        idn == IF d[3] % 3 = 0 THEN "" ELSE Words(d, 23)
        e == Enc(d) m == Moment(d) date == Pick(<<Date(m) \o " " \o Clock(m), Iso(m), Date(m) \o " " \o Clock(m) \o ".0">>, d[24])
        hasImage == d[4] % 2 = 0
        pix == Pixels(4 * nx * ny, d[5])
    IN File("os3d", ".os3d",
        <<Text(<<"OmniSurf3D">>), Num("<i4", 1), Num("<i4", 0), LenOf("<i4", <<EText(e, <<idn>>)>>), EText(e, <<idn>>), LenOf("<i4", <<Text(<<date>>)>>), Text(<<date>>),
          Num("<i4", nx), Num("<i4", ny), Num("<f8", dx), Num("<f8", dy), Num("<f8", I(5)), Num("<f8", I(-7)), Arr("<f4", Eighths(g, Var("fmin"))),
          Byte(<<IF hasImage THEN 1 ELSE 0>>)>> \o (IF hasImage THEN <<Png(ny, nx, 4, pix)>> ELSE <<>>),
        Says(Meaning(g, Q(1, 8), I(0), dx, dy, IF hasImage THEN <<Layer("RGBA", ny, nx, 4, pix)>> ELSE <<>>), e,
             <<MText("chArrayIdentification", idn), MTime("timestamp", Iso(m)), MNum("dXOriginUM", I(5)), MNum("dYOriginUM", I(-7)), MNum("nMajorVersion", I(1))>>))

(* Sensofar PLu *)
Plu(g, d) ==
    LET ny == NRows(g) nx == NCols(g) dx == Lateral(d[1]) dy == Lateral(d[2])
        color == d[3] % 2 = 0
        pix == IF color THEN Pixels(3 * nx * ny, d[4]) ELSE Gray3(nx * ny, d[4])
        isGray == \A k \in 1..(nx * ny) : pix[3 * k] = pix[3 * k - 1] /\ pix[3 * k] = pix[3 * k - 2]
    IN File("plu", ".plu",
        <<Str(128, Moment(d).wd \o " " \o MonthNames[Moment(d).mo] \o " " \o D2(Moment(d).dd) \o " " \o Clock(Moment(d)) \o " " \o ToString(Moment(d).y)), Zeros(260), Num("<u4", ny), Num("<u4", nx), Num("<u4", ny), Num("<f4", I(1)), Num("<f4", dx), Num("<f4", dy),
          Num("<f4", I(3)), Num("<f4", I(4)), Num("<f4", I(1)), Num("<f4", I(2)), Zeros(72), Arr("<f4", Eighths(g, I(1000001))), Zeros(16), Byte(pix)>>,
        Says(Meaning(g, Q(1, 8), I(0), dx, dy, IF isGray THEN <<Layer("Grayscale", ny, nx, 1, [k \in 1..(nx * ny) |-> pix[3 * k]])>> ELSE <<Layer("RGB", ny, nx, 3, pix)>>),
             "utf-8", <<MTime("timestamp", Iso(Moment(d)))>>))

(* Sensofar PLUx: an archive *)
Plux(g0, d) ==
    LET g == Full(g0) ny == NRows(g) nx == NCols(g) dx == Lateral(d[1]) dy == Lateral(d[2])
        img == d[3] % 3
        pix == IF img = 1 THEN Pixels(3 * nx * ny, d[4]) ELSE Gray3(nx * ny, d[4])
        isGray == \A k \in 1..(nx * ny) : pix[3 * k] = pix[3 * k - 1] /\ pix[3 * k] = pix[3 * k - 2]
        w1 == Words(d, 23) w2 == Words(d, 24) w3 == Words(d, 25)
        info == IF d[5] % 2 = 0 THEN <<>> ELSE <<"<INFO><SIZE>4</SIZE><ITEM_0><NAME>Device</NAME><VALUE>", w1, "</VALUE></ITEM_0><ITEM_1><NAME>Unknown</NAME><VALUE>5</VALUE></ITEM_1>",
                                                 "<ITEM_2><NAME>Measurement Type</NAME><VALUE> ", w2, "</VALUE></ITEM_2><ITEM_10><NAME>Comment</NAME><VALUE>", w3, "</VALUE></ITEM_10></INFO>">>
        says == <<MTime("timestamp", Iso(Moment(d)))>> \o (IF info = <<>> THEN <<>> ELSE <<MText("device", w1), MText("measurement type", w2), MText("comment", w3)>>)
        xml == Entry("index.xml", <<Text(<<"<?xml version='1.0' encoding='UTF-8'?><xml><GENERAL><DATE>", Date(Moment(d)), " ", Clock(Moment(d)), "</DATE><IMAGE_SIZE_X>", I(nx), "</IMAGE_SIZE_X><IMAGE_SIZE_Y>",
                     I(ny), "</IMAGE_SIZE_Y><FOV_X>", dx, "</FOV_X><FOV_Y>", dy, "</FOV_Y></GENERAL>">> \o info \o <<"</xml>">>)>>)
        raw == Entry("LAYER_0.raw", <<Arr("<f4", Eighths(g, I(0)))>>)
        stack == IF img = 0 THEN <<>> ELSE <<Entry("LAYER_0.stack.raw", <<Byte(pix)>>)>>
    IN File("plux", ".plux", <<Archive(IF d[6] % 2 = 0 THEN <<xml, raw>> \o stack ELSE stack \o <<raw, xml>>, d[7] % 2 = 0)>>,
        Says(Meaning(g, Q(1, 8), I(0), dx, dy, IF img = 0 THEN <<>> ELSE IF isGray THEN <<Layer("Grayscale", ny, nx, 1, [k \in 1..(nx * ny) |-> pix[3 * k]])>>
                                          ELSE <<Layer("RGB", ny, nx, 3, pix)>>), "utf-8", says))

(* Surface data file, ISO 25178-71 *)
SdfRow(s, nx, i) == [j \in 1..nx |-> s[(i - 1) * nx + j]]
Sdf(g0, d) ==
    LET kind == d[1] % 4     \* 0: int16, 1: int32, 2: double, 3: text
        g == g0 ny == NRows(g) nx == NCols(g)
        dx == Over(Lateral(d[2]), I(1000000)) dy == Over(Lateral(d[3]), I(1000000)) dz == Over(Dyadic(d[4]), I(1000000))
        type == CASE kind = 0 -> 5 [] kind = 1 -> 6 [] kind = 2 -> 7 [] kind = 3 -> Pick(<<5, 6, 7>>, d[5])
        \* the smallest integer is the code of non-measured points
        cells == CASE kind = 0 -> Arr("<i2", Coded(g, -32768)) [] kind = 1 -> Arr("<i4", Coded(g, -2147483647 - 1)) [] OTHER -> Arr("<f8", Coded(g, Var("nan")))
        word(k) == IF Item(g, k) = NaN THEN " BAD" ELSE " " \o ToString(Item(g, k))
        eol == Pick(<<"\n", "\r\n">>, d[6])
        perLine == Pick(<<1, nx, 4>>, d[7])
        m1 == Moment(d) m2 == Moment([d EXCEPT ![18] = d[22], ![19] = d[23]])
        Stamp(m) == D2(m.dd) \o D2(m.mo) \o ToString(m.y) \o D2(m.h) \o D2(m.mi)
        \* (the text form is ASCII)
        e == IF kind = 3 THEN "utf-8" ELSE Enc(d)
        maker == IF kind = 3 THEN "Maker" ELSE Words(d, 24)
        says == <<MText("ManufacID", maker), MDate("CreateDate", IsoMinute(m1), Stamp(m1)), MDate("ModDate", IsoMinute(m2), Stamp(m2)), MNum("Zresolution", I(-1))>>
                \o (IF kind = 3 /\ d[8] % 2 = 0 THEN <<MText("Operator", "Tom Jones"), MText("Sample", "a b"), MText("Probe", "5 um")>> ELSE <<>>)
        Numbers[k \in 0..(nx * ny)] == IF k = 0 THEN <<>> ELSE Numbers[k - 1] \o <<word(k)>> \o (IF k % perLine = 0 THEN <<eol>> ELSE <<>>)
    IN File("sdf", ".sdf",
        IF kind # 3 THEN <<Text(<<"bISO-1.0">>), EStr(e, 10, maker), Text(<<Stamp(m1), Stamp(m2)>>), Num("<u2", nx), Num("<u2", ny), Num("<f8", dx), Num("<f8", dy),
                           Num("<f8", dz), Num("<f8", I(-1)), Byte(<<0, type, 0>>), cells>>
        ELSE <<Text(<<"aISO-1.0", eol, "ManufacID   = ", maker, eol, "CreateDate = ", Stamp(m1), eol, "ModDate = ", Stamp(m2), eol, "NumPoints = ", I(nx), eol, "NumProfiles = ", I(ny), eol,
                      "Xscale = ", dx, eol, "Yscale = ", dy, eol, "Zscale = ", dz, eol, "Zresolution = -1", eol, "Compression = 0", eol, "DataType = ", I(type), eol, "CheckType = 0", eol,
                      "*", eol>> \o Numbers[nx * ny] \o <<eol, "*", eol>> \o (IF d[8] % 2 = 0 THEN <<"< Operator > Tom Jones < / Operator >", eol, "<Sample>a b</Sample>", eol, "<Probe> 5 um </Probe>", eol>> ELSE <<>>) \o <<"*", eol>>)>>,
        Says(Meaning(g, Um(dz, "m"), I(0), Um(dx, "m"), Um(dy, "m"), <<>>), e, says))

(* Digital Surf *)
SurObject(compressed, type, objects, ny, nx, bits, missing, minp, dx, dy, dz, units, off, comment, streams, cells, d) ==
    LET e == Enc(d) m == Moment(d) w == bits \div 8
        dt == IF bits = 16 THEN "<i2" ELSE "<i4"
        half == (nx * ny) \div 2
        \* the data in one or in two streams
        parts == IF streams = 1 \/ half = 0 THEN <<cells>> ELSE <<SubSeq(cells, 1, half), SubSeq(cells, half + 1, nx * ny)>>
        dirs == IF Len(parts) = 1 THEN <<Num("<u4", w * nx * ny), LenOf("<u4", <<Zlib(<<Arr(dt, parts[1])>>)>>)>>
                ELSE <<Num("<u4", w * half), LenOf("<u4", <<Zlib(<<Arr(dt, parts[1])>>)>>), Num("<u4", w * (nx * ny - half)), LenOf("<u4", <<Zlib(<<Arr(dt, parts[2])>>)>>)>>
        body == IF compressed THEN <<Num("<u4", Len(parts))>> \o dirs \o [k \in 1..Len(parts) |-> Zlib(<<Arr(dt, parts[k])>>)] ELSE <<Arr(dt, cells)>>
    IN <<Packed("block", <<Text(<<IF compressed THEN "DSCOMPRESSED" ELSE "DIGITAL SURF">>), Num("<i2", 0), Num("<i2", objects), Num("<i2", 1), Num("<i2", type),
           EStr(e, 30, Words(d, 23)), EStr(e, 30, Words(d, 24)), Num("<i2", 0), Num("<i2", 0), Num("<i2", 0), Num("<i2", IF missing THEN 1 ELSE 0), Num("<i2", 0), At(98),
           Num("<i2", bits), Num("<i4", minp), Num("<i4", 32000), Num("<i4", nx), Num("<i4", ny), Num("<i4", nx * ny), Num("<f4", dx), Num("<f4", dy), Num("<f4", dz),
           EStr(e, 16, Words(d, 27)), Str(16, "Y"), Str(16, "Z"), Str(16, units[1]), Str(16, units[2]), Str(16, units[3]), Str(16, "cm"), Str(16, "cm"), Str(16, "cm"), At(306),
           Num("<i2", m.s), Num("<i2", m.mi), Num("<i2", m.h), Num("<i2", m.dd), Num("<i2", m.mo), Num("<i2", m.y), Num("<i2", 1), Num("<f4", Dyadic(d[25])),
           IF compressed THEN LenOf("<u4", body) ELSE Num("<u4", 0), At(334), Num("<i2", comment), Num("<i2", comment \div 2), EStr(e, 128, Words(d, 26)), At(466), Num("<f4", I(0)), Num("<f4", I(0)),
           Num("<f4", off), At(512), Zeros(comment), Zeros(comment \div 2)>> \o body)>>
Sur(g0, d) ==
    LET ny == NRows(g0) nx == NCols(g0)
        compressed == d[1] % 2 = 0
        bits == Pick(<<16, 32>>, d[2])
        missing == d[3] % 3 # 0
        g == IF missing THEN g0 ELSE Full(g0)
        minp == -2000
        dx == Lateral(d[4]) dy == Lateral(d[5]) dz == Dyadic(d[6])
        units == <<Pick(UnitNames, d[7]), Pick(UnitNames, d[8]), Pick(<<"um", "nm", "mm", "m">>, d[9])>>
        off == Pick(<<I(0), I(100), Q(-5, 2)>>, d[10])
        kind == d[11] % 4        \* 0, 1: a surface, 2: with grey image, 3: with colour image and intensity
        comment == Pick(<<0, 11, 200>>, d[12])
        streams == (d[13] % 2) + 1
        sub(k, cells) == SurObject(compressed, 10, 1, ny, nx, 16, FALSE, 0, dx, dy, I(1), units, I(0), 0, 1, cells, [d EXCEPT ![23] = 1, ![18] = 0, ![20] = 1])
        r == Pixels(nx * ny, d[14]) gg == Pixels(nx * ny, d[14] + 1) b == Pixels(nx * ny, d[14] + 2) inten == Pixels(nx * ny, d[14] + 5)
        rgb == [k \in 1..(3 * nx * ny) |-> LET i == ((k - 1) \div 3) + 1 IN CASE k % 3 = 1 -> r[i] [] k % 3 = 2 -> gg[i] [] OTHER -> b[i]]
        images == CASE kind < 2 -> <<>> [] kind = 2 -> sub(1, r) \o sub(2, r) \o sub(3, r) \o sub(4, inten) [] kind = 3 -> sub(1, r) \o sub(2, gg) \o sub(3, b) \o sub(4, inten)
    IN File("sur", ".sur",
        SurObject(compressed, IF kind < 2 THEN 2 ELSE 16, 1, ny, nx, bits, missing, minp, dx, dy, dz, units, off, comment, streams, Coded(g, minp - 2), d) \o images,
        Says(Meaning(g, Um(dz, units[3]), Um(off, units[3]), Um(dx, units[1]), Um(dy, units[2]),
            CASE kind < 2 -> <<>> [] kind = 2 -> <<Layer("Grayscale", ny, nx, 1, r), Layer("Intensity", ny, nx, 1, inten)>>
              [] kind = 3 -> <<Layer("RGB", ny, nx, 3, rgb), Layer("Intensity", ny, nx, 1, inten)>>), Enc(d),
            <<MText("name_object", Words(d, 23)), MText("name_operator", Words(d, 24)), MText("client_zone", Words(d, 26)), MText("name_x", Words(d, 27)), MText("name_y", "Y"),
              MNum("seconds", I(Moment(d).s)), MNum("minutes", I(Moment(d).mi)), MNum("hours", I(Moment(d).h)), MNum("day", I(Moment(d).dd)), MNum("month", I(Moment(d).mo)),
              MNum("year", I(Moment(d).y)), MNum("measurement_duration", Dyadic(d[25])), MText("unit_step_x", units[1]), MText("unit_step_z", units[3]), MNum("spacing_x", dx)>>))

(* TrueMap *)
Tmd(g, d) ==
    LET ny == NRows(g) nx == NCols(g) dx == Lateral(d[1]) dy == Lateral(d[2])
        comment == IF d[3] % 3 = 0 THEN "" ELSE Words(d, 23) eol == IF d[3] % 3 = 0 THEN "" ELSE "\r\n"
    IN File("tmd", ".tmd",
        <<Str(32, "Binary TrueMap Data File v2.0\r\n"), EStr(Enc(d), 24, comment \o eol), Num("<u4", nx), Num("<u4", ny),
          Num("<f4", Times(I(nx), dx)), Num("<f4", Times(I(ny), dy)), Num("<f4", Dyadic(d[24])), Num("<f4", Dyadic(d[25])), Arr("<f4", Eighths(g, Var("nan")))>>,
        Says(Meaning(g, Q(1, 8), I(0), dx, dy, <<>>), Enc(d), <<MText("comment", comment), MNum("offset_x", Dyadic(d[24])), MNum("offset_y", Dyadic(d[25]))>>))

(* Keyence VK4: a table of offsets; VK6 and VK7: an archive with a VK4 file *)
VkParts(g, d) ==
    LET ny == NRows(g) nx == NCols(g) n == nx * ny
        deep == d[1] % 2 = 0
        px == 100000 + 1000 * d[2] py == 70000 + 333 * d[3] pz == Pick(<<1, 10, 100, 1000>>, d[4])
        rgb1 == Pixels(3 * n, d[5]) rgb2 == Pixels(3 * n, d[6]) laser == Pixels(n, d[7])
        image(s) == <<Num("<u4", nx), Num("<u4", ny), Num("<u4", 24), Num("<u4", 0), Num("<u4", 3 * n), Byte(s)>>
        plane(bits, s) == <<Num("<u4", nx), Num("<u4", ny), Num("<u4", bits), Num("<u4", 0), Num("<u4", n * (bits \div 8)), Num("<u4", 0), Num("<u4", 65535), Zeros(768),
                            Arr(IF bits = 16 THEN "<u2" ELSE "<u4", s)>>
        hb == IF deep THEN 32 ELSE 16
        mt == Moment(d) zoom == 10 * ((d[22] % 6) + 1) mag == 25 * (d[23] + 1)
        \* names with the number of their characters
        Labels == IF d[17] % 4 = 1 THEN <<[v |-> "AB", n |-> 2], [v |-> "C", n |-> 1], [v |-> "", n |-> 0]>>
                 ELSE <<[v |-> "AB", n |-> 2], [v |-> "5 {mu}m", n |-> 4], [v |-> "Gr{oe}{ss}e", n |-> 5], [v |-> "", n |-> 0], [v |-> "{kanji}", n |-> 2], [v |-> "x {kanji} 5", n |-> 6]>>
        title == Pick(Labels, d[24]) lens == Pick(Labels, d[25])
        o1 == 84 + 16 * (d[8] % 3) o2 == o1 + 380 o3 == o2 + 20 + 3 * n o4 == o3 + 20 + 3 * n o5 == o4 + 796 + 2 * n o6 == o5 + 796 + n * (hb \div 8)
    IN [fields |-> <<Text(<<"VK4_">>), Zeros(8), Num("<u4", o1), Num("<u4", o2), Num("<u4", o3), Num("<u4", o4), Zeros(8), Num("<u4", o5), Zeros(8),
                     Num("<u4", 0), Num("<u4", 0), Num("<u4", 0), Num("<u4", 0), Num("<u4", 0), Num("<u4", 0), Num("<u4", 0), Num("<u4", o6), At(o1),
                     Num("<u4", 380), Num("<u4", mt.y), Num("<u4", mt.mo), Num("<u4", mt.dd), Num("<u4", mt.h), Num("<u4", mt.mi), Num("<u4", mt.s), At(o1 + 72), Num("<u4", zoom), At(o1 + 96), Num("<u4", mag),
                     At(o1 + 168), Num("<u4", px), Num("<u4", py),
                     Num("<u4", pz), At(o2)>> \o image(rgb1) \o image(rgb2) \o plane(16, laser) \o plane(hb, Flat(g))
                   \o <<Num("<u4", title.n), EText("utf-16-le", <<title.v>>), Num("<u4", lens.n), EText("utf-16-le", <<lens.v>>)>>,
        \* picometres; the colours are stored as blue, green, red
        m |-> Says(Meaning(g, Um(I(pz), "pm"), I(0), Um(I(px), "pm"), Um(I(py), "pm"),
                <<Layer("RGB", ny, nx, 3, [k \in 1..(3 * n) |-> rgb1[3 * ((k - 1) \div 3) + 3 - ((k - 1) % 3)]]),
                  Layer("Laser+RGB", ny, nx, 3, [k \in 1..(3 * n) |-> rgb2[3 * ((k - 1) \div 3) + 3 - ((k - 1) % 3)]]), Layer("Laser", ny, nx, 1, laser)>>),
                  "utf-8", <<MTime("timestamp", Iso(mt)), MText("title", title.v), MText("lens_name", lens.v), MNum("optical_zoom", Q(zoom, 10)), MNum("objective_magnification", Q(mag, 10))>>)]
Vk4(g0, d) == LET v == VkParts(Full(Positive(g0)), d) IN File("vk4", ".vk4", v.fields, v.m)
Vk6(g0, d) == LET v == VkParts(Full(Positive(g0)), d)
                  magic == IF d[10] % 2 = 0 THEN "VK6" ELSE "VK7"
              IN File("vk6", Pick(<<".vk6", ".vk7">>, d[9]), <<Text(<<magic>>), Zeros(4 * (d[12] % 3)), Archive(<<Entry("other", <<Zeros(5)>>), Entry("Vk4File", v.fields)>>, d[11] % 2 = 0)>>, v.m)

(* X3P, ISO 25178-72: an archive *)
X3p(g0, d) ==
    LET type == Pick(<<"I", "L", "F", "D">>, d[1])
        int == type \in {"I", "L"}
        g == IF int THEN Full(g0) ELSE g0
        ny == NRows(g) nx == NCols(g)
        dx == Over(Lateral(d[2]), I(1000000)) dy == Over(Lateral(d[3]), I(1000000)) dz == Over(Dyadic(d[4]), I(1000000))
        hasInc == int /\ d[5] % 3 # 0
        cells == CASE type = "I" -> Arr("<i2", Flat(g)) [] type = "L" -> Arr("<i4", Flat(g)) [] type = "F" -> Arr("<f4", Eighths(g, Var("nan"))) [] OTHER -> Arr("<f8", Eighths(g, Var("nan")))
        w1 == Words(d, 23) w2 == Words(d, 24) w3 == Words(d, 25) m1 == Moment(d) m2 == Moment([d EXCEPT ![18] = d[22], ![19] = d[26]])
        record2 == IF d[6] % 2 = 0 THEN <<>> ELSE <<"<Record2><Date>", Iso(m1), "</Date><Creator>", w1, "</Creator><Instrument><Manufacturer>", w2, "</Manufacturer><Model>", w3,
                       "</Model></Instrument><CalibrationDate>", Iso(m2), "</CalibrationDate><Comment></Comment></Record2>">>
        says == IF record2 = <<>> THEN <<>> ELSE <<MTime("Date", Iso(m1)), MText("Creator", w1), MText("InstrumentManufacturer", w2), MText("InstrumentModel", w3), MTime("CalibrationDate", Iso(m2))>>
        path == Pick(<<"bindata/data.bin", "data.bin">>, d[7])
        xml == Entry("main.xml", <<Text(<<"<?xml version='1.0' encoding='UTF-8'?><p:ISO5436_2 xmlns:p='http://www.opengps.eu/2008/ISO5436_2'><Record1><Revision>ISO5436 - 2000</Revision><FeatureType>SUR</FeatureType>",
             "<Axes><CX><AxisType>I</AxisType><DataType>D</DataType><Increment>", dx, "</Increment><Offset>0.0</Offset></CX>",
             "<CY><AxisType>I</AxisType><DataType>D</DataType><Increment>", dy, "</Increment><Offset>0.0</Offset></CY><CZ><AxisType>A</AxisType><DataType>", type, "</DataType>">>
             \o (IF hasInc THEN <<"<Increment>", dz, "</Increment>">> ELSE <<>>)
             \o <<"<Offset>0.0</Offset></CZ></Axes></Record1>">> \o record2 \o <<"<Record3><MatrixDimension><SizeX>", I(nx), "</SizeX><SizeY>", I(ny), "</SizeY><SizeZ>1</SizeZ></MatrixDimension>",
             "<DataLink><PointDataLink>", path, "</PointDataLink></DataLink></Record3></p:ISO5436_2>">>)>>)
        data == Entry(path, <<cells>>)
        md5 == Entry("md5checksum.hex", <<[t |-> "md5", f |-> xml.f], Text(<<Pick(<<" *main.xml", "", "  main.xml\n">>, d[8])>>)>>)
    IN File("x3p", ".x3p", <<Archive(IF d[9] % 2 = 0 THEN <<xml, data, md5>> ELSE <<data, md5, xml>>, d[10] % 2 = 0)>>,
        Says(Meaning(g, Um(IF int THEN (IF hasInc THEN dz ELSE I(1)) ELSE Q(1, 8), "m"), I(0), Um(dx, "m"), Um(dy, "m"), <<>>), "utf-8", says))

(* text with one point per line, in metres *)
Xyz(g0, d) ==
    LET g == Full(g0) ny == NRows(g) nx == NCols(g)
        dx == Pick(<<2, 1, 5>>, d[1]) dy == Pick(<<1, 3, 2>>, d[2])
        sep == Pick(<<" ", "\t", "   ">>, d[3]) eol == Pick(<<"\n", "\r\n">>, d[4])
        byColumns == d[5] % 2 = 0
        E(n) == ToString(n) \o "e-6"
        Line(i, j) == E(j * dx) \o sep \o E(i * dy) \o sep \o ToString(g[i][j]) \o "e-7" \o eol
        Lines[k \in 0..(nx * ny)] == IF k = 0 THEN <<>> ELSE Lines[k - 1] \o <<IF byColumns THEN Line(((k - 1) % ny) + 1, ((k - 1) \div ny) + 1) ELSE Line(((k - 1) \div nx) + 1, ((k - 1) % nx) + 1)>>
    IN File("xyz", ".xyz", <<Text((IF d[6] % 3 = 0 THEN <<"# x y z", eol>> ELSE <<>>) \o Lines[nx * ny])>>,
        Meaning(g, Q(1, 10), I(0), I(IF nx = 1 THEN 0 ELSE dx), I(IF ny = 1 THEN 0 ELSE dy), <<>>))

(* Zeta *)
Zmg(g0, d) ==
    LET g == Full(g0) ny == NRows(g) nx == NCols(g) dx == Lateral(d[1]) dy == Lateral(d[2]) dz == Dyadic(d[3])
        comment == Pick(<<0, 7, 300>>, d[4])
    IN File("zmg", ".zmg",
        <<Text(<<"Zeta-Instruments">>), At(85), Num("<u4", nx), Num("<u4", ny), Zeros(4), Num("<f4", dx), Num("<f4", dy), Num("<f4", dz), Zeros(8), Num("<u4", comment), Zeros(84),
          Zeros(comment), Arr("<i2", Flat(g)), Zeros(d[5] % 5)>>,
        Meaning(g, dz, I(0), dx, dy, <<>>))

(* Alicona: tags of text *)
Tag(k, parts) == <<Str(20, k), Padded(30, 0, <<Text(parts)>>), Text(<<"\r\n">>)>>
Al3d(g, d) ==
    LET ny == NRows(g) nx == NCols(g)
        dx == Over(Lateral(d[1]), I(1000000)) dy == Over(Lateral(d[2]), I(1000000))
        bad == d[3] % 3      \* non-measured points as nan, as zero or as a large number (of which no height is one)
        extra == d[4] % 2 = 0
        offset == Pick(<<900, 1700, 845>>, d[5])
        g1 == IF bad = 1 THEN Map(g, LAMBDA x : IF x = 0 THEN 1 ELSE x) ELSE g
        badTerm == CASE bad = 0 -> Var("nan") [] bad = 1 -> I(0) [] bad = 2 -> I(1048576)
        badText == CASE bad = 0 -> "nan" [] bad = 1 -> "0" [] bad = 2 -> "1.048576E+6"
        \* heights in metres, exact in single precision
        cells == [k \in 1..(nx * ny) |-> IF Item(g1, k) = NaN THEN badTerm ELSE Q(Item(g1, k), 1048576)]
        tags == Tag("Cols", <<I(nx)>>) \o Tag("Rows", <<I(ny)>>) \o Tag("NumberOfPlanes", <<"0">>) \o Tag("PixelSizeYMeter", <<dy>>) \o Tag("PixelSizeXMeter", <<dx>>)
                \o Tag("DepthImageOffset", <<I(offset)>>) \o Tag("InvalidPixelValue", <<badText>>) \o Tag("TextureImageOffset", <<"0">>) \o Tag("IconOffset", <<"0">>)
                \o (IF extra THEN Tag("Comment", <<"none">>) ELSE <<>>)
    IN File("al3d", ".al3d",
        <<Byte(<<65, 108, 105, 99, 111, 110, 97, 73, 109, 97, 103, 105, 110, 103, 0, 13, 10>>)>> \o Tag("Version", <<"1">>) \o Tag("TagCount", <<I(IF extra THEN 10 ELSE 9)>>) \o tags
        \o <<At(offset), Arr("<f4", cells)>>,
        Meaning(g1, Um(Q(1, 1048576), "m"), I(0), Um(dx, "m"), Um(dy, "m"), <<>>))

(* the own format *)
Comp3(how, fs) == CASE how = 0 -> Packed("block", fs) [] how = 1 -> Zlib(fs) [] how = 2 -> Packed("lzma", fs)
Sflz(g0, d) ==
    LET kind == d[1] % 4       \* 0: floats, 1: 16 bit, 2: 8 bit signed, 3: single precision
        ny == NRows(g0) nx == NCols(g0) how == d[2] % 3
        g == CASE kind \in {0, 3} -> g0 [] kind = 1 -> Full(Positive(g0)) [] kind = 2 -> Map(g0, LAMBDA x : IF x = NaN THEN 5 ELSE (x % 256) - 128)
        dx == Lateral(d[3]) dy == Lateral(d[4])
        lo == Pick(<<I(-10), I(0), Q(5, 2)>>, d[5]) hi == Plus(lo, Pick(<<I(20), Q(1, 8)>>, d[6]))
        dt == CASE kind = 0 -> "<f8" [] kind = 1 -> "<u2" [] kind = 2 -> "|i1" [] kind = 3 -> "<f4"
        cells == CASE kind \in {0, 3} -> Eighths(g, Var("nan")) [] OTHER -> Flat(g)
        layer(name, h, w, ch, t, s) == LET body == Comp3(how, <<Arr(t, s)>>) IN
            <<LenOf("<u2", <<Text(<<name>>)>>), Text(<<name>>), Num("<u4", w), Num("<u4", h), Num("<u1", ch), Str(3, t), LenOf("<u4", <<body>>), body>>
        extra == d[7] % 3
        pix == Pixels(18, d[8])
    IN File("sflz", ".sflz",
        <<Text(<<"SFLZ">>), Padded(10, 32, <<Text(<<"1.0">>)>>), Num("<f8", dx), Num("<f8", dy), Byte(<<IF kind \in {1, 2} THEN 1 ELSE 0>>), Num("<f8", lo), Num("<f8", hi),
          Num("<u2", IF extra = 0 THEN 1 ELSE 2), Num("<u2", 0), Byte(<<how>>)>> \o layer("topography", ny, nx, 1, dt, cells)
        \o (CASE extra = 0 -> <<>> [] extra = 1 -> layer("Colour", 2, 3, 3, "|u1", pix) [] extra = 2 -> layer("Flat", 3, 6, 1, "<u2", pix)),
        Meaning(g, CASE kind \in {0, 3} -> Q(1, 8) [] kind = 1 -> Over(Minus(hi, lo), I(65535)) [] kind = 2 -> Over(Minus(hi, lo), I(255)),
                CASE kind \in {0, 3} -> I(0) [] kind = 1 -> lo [] kind = 2 -> Plus(lo, Over(Times(Minus(hi, lo), I(128)), I(255))), dx, dy,
                CASE extra = 0 -> <<>> [] extra = 1 -> <<Layer("Colour", 2, 3, 3, pix)>> [] extra = 2 -> <<Layer("Flat", 3, 6, 1, pix)>>))

FormatNames == <<"dat", "fits", "gwy", "nms", "opd", "os3d", "plu", "plux", "sdf", "sur", "tmd", "vk4", "vk6", "x3p", "xyz", "zmg", "al3d", "sflz">>
Record(f, g, d) ==
    CASE f = "dat" -> Dat(g, d) [] f = "fits" -> Fits(g, d) [] f = "gwy" -> Gwy(g, d) [] f = "nms" -> Nms(g, d) [] f = "opd" -> Opd(g, d) [] f = "os3d" -> Os3d(g, d)
      [] f = "plu" -> Plu(g, d) [] f = "plux" -> Plux(g, d) [] f = "sdf" -> Sdf(g, d) [] f = "sur" -> Sur(g, d) [] f = "tmd" -> Tmd(g, d) [] f = "vk4" -> Vk4(g, d)
      [] f = "vk6" -> Vk6(g, d) [] f = "x3p" -> X3p(g, d) [] f = "xyz" -> Xyz(g, d) [] f = "zmg" -> Zmg(g, d) [] f = "al3d" -> Al3d(g, d) [] f = "sflz" -> Sflz(g, d)
=============================================================================
