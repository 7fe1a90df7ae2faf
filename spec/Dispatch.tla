-------------------------------- MODULE Dispatch --------------------------------
(* Which reader or writer is chosen for a file (property F02).                   *)
(* A load is determined by its target (path or buffer), the suffix of the path,  *)
(* the explicitly given format and the content.  The content decides what is     *)
(* loaded; the name that is expected (explicit format before suffix, in any      *)
(* letter case) only decides whether a mismatch is reported.  A save is          *)
(* determined by the name alone.                                                 *)
EXTENDS Layouts, Json, IOUtils

CONSTANTS FullProduct, NContents
VARIABLES t, l
vars == <<t, l>>

\* the names a format goes by: lower case and two spellings that mean the same
Names == [dat |-> <<<<".dat", ".DAT", ".Dat">>>>, fits |-> <<<<".fits", ".FITS", ".Fits">>, <<".fit", ".FIT", ".fIt">>, <<".fts", ".FTS", ".ftS">>>>,
          gwy |-> <<<<".gwy", ".GWY", ".Gwy">>>>, nms |-> <<<<".nms", ".NMS", ".Nms">>>>, opd |-> <<<<".opd", ".OPD", ".Opd">>>>, os3d |-> <<<<".os3d", ".OS3D", ".Os3D">>>>,
          plu |-> <<<<".plu", ".PLU", ".Plu">>>>, plux |-> <<<<".plux", ".PLUX", ".pluX">>>>, sdf |-> <<<<".sdf", ".SDF", ".Sdf">>>>, sur |-> <<<<".sur", ".SUR", ".Sur">>>>,
          tmd |-> <<<<".tmd", ".TMD", ".Tmd">>>>, vk4 |-> <<<<".vk4", ".VK4", ".Vk4">>>>, vk6 |-> <<<<".vk6", ".VK6", ".Vk6">>, <<".vk7", ".VK7", ".vK7">>>>,
          x3p |-> <<<<".x3p", ".X3P", ".X3p">>>>, xyz |-> <<<<".xyz", ".XYZ", ".xYz">>>>, zmg |-> <<<<".zmg", ".ZMG", ".Zmg">>>>, al3d |-> <<<<".al3d", ".AL3D", ".Al3d">>>>,
          sflz |-> <<<<".sflz", ".SFLZ", ".sflZ">>>>]
Formats == DOMAIN Names
\* the suffixes of a format, spelling by spelling
Spellings(f) == UNION {{Names[f][i][k] : k \in 1..3} : i \in 1..Len(Names[f])}
Known == UNION {Spellings(f) : f \in Formats}
Foreign == {".foo", ".txt", ".zip", ".png", ".surf", ".su", ".s", ".sur "}
AllNames == Known \cup Foreign
FamilyOf(n) == IF n \in Known THEN CHOOSE f \in Formats : n \in Spellings(f) ELSE ""
Writable == {"al3d", "sdf", "sflz", "sur", "tmd"}
Magic(f) == CASE f = "al3d" -> "AliconaImaging" [] f = "sdf" -> "bISO-1.0" [] f = "sflz" -> "SFLZ" [] f = "sur" -> "DIGITAL SURF" [] f = "tmd" -> "Binary TrueMap Data File v2.0"

\* contents: a file of a format, or something no reader may accept
Garbage == {"empty", "zeros", "random", "words", "numbers", "header", "png", "zip", "zipcut", "zipjunk", "half", "newlines", "utf16", "json"}
Contents == Formats \cup Garbage \cup {"junk_" \o f : f \in {"dat", "fits", "gwy", "opd", "os3d", "sdf", "sur", "tmd", "vk4", "vk6", "zmg", "al3d", "sflz"}}

\* the name that is expected
Expected(c) == IF c.explicit # "" THEN c.explicit ELSE c.suffix

Plain == UNION {{Names[f][i][1] : i \in 1..Len(Names[f])} : f \in Formats}
Numbered == {[content |-> x, n |-> n] : x \in Formats, n \in 1..NContents} \cup {[content |-> x, n |-> 1] : x \in Contents \ Formats}
Named(kind, stems, targets, suffixes, explicits, contents) ==
    {[kind |-> kind, stem |-> b, target |-> g, suffix |-> s, explicit |-> e, content |-> x.content, n |-> x.n] : b \in stems, g \in targets, s \in suffixes, e \in explicits, x \in contents}
Cases(kind, targets, suffixes, explicits, contents) == Named(kind, {"file"}, targets, suffixes, explicits, contents)
\* only what follows the last dot of a name is its suffix, and folders have no say
Stems == {"sample.2", "a.sur", "x.x3p.gz", "Probe 1.5 um", ".hidden", "messung_ue", "d.tmd/file"}
Some == {".sur", ".VK7", ".foo"}
Loads == Cases("load", {"str"}, AllNames \cup {""}, {""}, Numbered)
         \cup Cases("load", {"bytesio"}, {""}, AllNames \cup {""}, Numbered)
         \cup Cases("load", {"file"}, {""}, Some \cup {""}, Numbered)
         \cup Cases("load", {"path"}, {"", ".sdf", ".X3P", ".foo"}, Some, Numbered)
         \cup Named("load", Stems, {"str", "path"}, {".sur", ".X3P", ".foo", ".vk6"}, {"", ".tmd"}, {[content |-> f, n |-> 1] : f \in Formats})
         \cup Named("load", Stems, {"str"}, Plain, {""}, {[content |-> f, n |-> 1] : f \in Formats})
         \cup (IF FullProduct THEN Cases("load", {"path"}, Plain \cup {"", ".foo"}, Plain \cup {"", ".foo"}, Numbered)
                                   \cup Cases("load", {"file"}, {""}, AllNames, Numbered) ELSE {})
Present == {[content |-> x, n |-> 1] : x \in {"absent", "present"}}
Saves == Cases("save", {"str"}, AllNames \cup {""}, {"", ".sur", ".FOO", ".gwy"}, Present)
         \cup Cases("save", {"bytesio", "file"}, {""}, AllNames \cup {""}, Present)
         \cup Cases("save", {"path"}, {"", ".SUR", ".sdf", ".gwy", ".foo"}, AllNames \cup {""}, Present)
         \cup Named("save", Stems, {"str", "path"}, {".sur", ".SDF", ".tmd", ".gwy", ".foo"}, {"", ".al3d"}, Present)
         \cup (IF FullProduct THEN Cases("save", {"path"}, AllNames \cup {""}, AllNames \cup {""}, Present) ELSE {})

GenInit == t = 0 /\ l = 0
GenNext == /\ l = 0 /\ l' = 1 /\ UNCHANGED t
           /\ PrintT("@@" \o ToJson([loads |-> Loads, saves |-> Saves]))
GenSpec == GenInit /\ [][GenNext]_vars

-----------------------------------------------------------------------------
Traces == JsonDeserialize(IOEnv.TRACE)
Clause(ok, name) == IF ok THEN {} ELSE {name}
TraceInit == t \in 1..Len(Traces) /\ l = 1
\* "any": the path has no suffix and no format is given
Mismatch(c) == IF Expected(c) = "" THEN (IF c.target \in {"str", "path"} THEN "any" ELSE "no")
               ELSE IF FamilyOf(Expected(c)) = c.content THEN "no" ELSE "yes"
LoadVerdict(c, e) ==
    IF c.content \in Formats
    THEN Clause(e.outcome = "loaded", "F02:" \o c.content \o ":refused")
         \cup (IF e.outcome = "loaded"
               THEN Clause(e.loaded = c.content, "F02:" \o c.content \o ":loaded_as_something_else")
                    \cup Clause(Mismatch(c) = "any" \/ e.warned = (Mismatch(c) = "yes"), IF e.warned THEN "F02:needless_warning" ELSE "F02:missing_warning")
                    \cup Clause(~e.warned \/ Mismatch(c) # "yes" \/ (\E s \in Spellings(c.content) : s \in {e.named[i] : i \in 1..Len(e.named)}), "F02:warning_names_wrong_format")
               ELSE {})
    ELSE Clause(e.outcome = "refused", "F02:unrecognisable_content_accepted")
SaveVerdict(c, e) ==
    LET f == FamilyOf(Expected(c)) IN
    IF f \in Writable
    THEN Clause(e.outcome = "saved", "F02:save:refused") \cup
         (IF e.outcome = "saved" THEN Clause(e.begins = Magic(f), "F02:save:wrong_format") \cup Clause(e.others, "F02:save:other_files_changed") ELSE {})
    ELSE Clause(e.outcome = "refused", "F02:save:unsupported_name_accepted") \cup Clause(e.untouched, "F02:save:written_although_refused")
TraceNext == /\ l <= Len(Traces[t]) /\ l' = l + 1 /\ UNCHANGED t
             /\ LET e == Traces[t][l] IN
                LET v == IF e.c.kind = "load" THEN LoadVerdict(e.c, e) ELSE SaveVerdict(e.c, e)
                IN IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> v]))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
