------------------------------ MODULE TiffDir ------------------------------
(***************************************************************************)
(* Image directories: which tag feeds which field, defaults, required     *)
(* tags, GeoKeys.                                                          *)
(*                                                                         *)
(* A directory value is [k, f, o, g]: k is "ok", "err" or "any"           *)
(* (unspecified), f maps field names to [s, v]: s = "set" (v the words),   *)
(* "unset", or "any"; o is the set of other tags; g is the GeoKey         *)
(* directory [p, e, f].                                                    *)
(***************************************************************************)
EXTENDS TiffValue, FiniteSets

(* tag, field, conversion target, list?                                    *)
FieldTable == <<
  <<254, "new_subfile_type", "u32", FALSE>>,
  <<256, "image_width", "u32", FALSE>>,
  <<257, "image_height", "u32", FALSE>>,
  <<258, "bits_per_sample", "u16", TRUE>>,
  <<259, "compression", "u16", FALSE>>,
  <<262, "photometric_interpretation", "u16", FALSE>>,
  <<269, "document_name", "string", FALSE>>,
  <<270, "image_description", "string", FALSE>>,
  <<273, "strip_offsets", "u64", TRUE>>,
  <<274, "orientation", "u16", FALSE>>,
  <<277, "samples_per_pixel", "u16", FALSE>>,
  <<278, "rows_per_strip", "u32", FALSE>>,
  <<279, "strip_byte_counts", "u64", TRUE>>,
  <<280, "min_sample_value", "u16", TRUE>>,
  <<281, "max_sample_value", "u16", TRUE>>,
  <<282, "x_resolution", "ratio", FALSE>>,
  <<283, "y_resolution", "ratio", FALSE>>,
  <<284, "planar_configuration", "u16", FALSE>>,
  <<296, "resolution_unit", "u16", FALSE>>,
  <<305, "software", "string", FALSE>>,
  <<306, "date_time", "string", FALSE>>,
  <<315, "artist", "string", FALSE>>,
  <<316, "host_computer", "string", FALSE>>,
  <<317, "predictor", "u16", FALSE>>,
  <<320, "colormap", "u16", TRUE>>,
  <<322, "tile_width", "u32", FALSE>>,
  <<323, "tile_height", "u32", FALSE>>,
  <<324, "tile_offsets", "u64", TRUE>>,
  <<325, "tile_byte_counts", "u64", TRUE>>,
  <<338, "extra_samples", "u16", TRUE>>,
  <<339, "sample_format", "u16", TRUE>>,
  <<347, "jpeg_tables", "u8", TRUE>>,
  <<33432, "copyright", "string", FALSE>>,
  <<33550, "model_pixel_scale", "f64", TRUE>>,
  <<33922, "model_tiepoint", "f64", TRUE>>,
  <<34264, "model_transformation", "f64", TRUE>>,
  <<42112, "gdal_metadata", "string", FALSE>>,
  <<42113, "gdal_nodata", "string", FALSE>>,
  <<50674, "lerc_parameters", "u32", TRUE>> >>
FieldIdx == 1..Len(FieldTable)
FieldNames == {FieldTable[i][2] : i \in FieldIdx}
FTag(i) == FieldTable[i][1]
FieldTags == {FieldTable[i][1] : i \in FieldIdx}
(* Tags consumed for the GeoKeys.                                          *)
GeoDirTag == 34735
GeoDoubleTag == 34736
GeoAsciiTag == 34737
OwnTags == FieldTags \cup {GeoDirTag, GeoDoubleTag, GeoAsciiTag}

NameRow == [nm \in FieldNames |-> CHOOSE i \in FieldIdx : FieldTable[i][2] = nm]
RowOf == [t \in FieldTags |-> CHOOSE i \in FieldIdx : FieldTable[i][1] = t]

(* Closed enumerations: any other code is not a value of the field.        *)
Codes(name) ==
  CASE name = "photometric_interpretation" -> 0..6 \cup {8}
    [] name = "planar_configuration" -> 1..2
    [] name = "predictor" -> 1..3
    [] name = "extra_samples" -> 0..2
    [] OTHER -> 0..65535

(* A rational as a 1/1024-fixed point word, where exactly representable.   *)
RatioWord(v) ==
  LET n == SubSeq(v, 1, 4)
      d == SubSeq(v, 5, 8)
  IN IF IsNat(n) /\ IsNat(d) /\ ToNat(n) < 1048576
        /\ ToNat(d) \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024}
     THEN Ok(<<OfNat(ToNat(n) * (1024 \div ToNat(d)), 8)>>)
     ELSE [k |-> "any", w |-> <<>>]

Convert(row, val) ==
  LET name == row[2]
      c == IF row[3] = "ratio" THEN (IF val.t = "Rational" THEN RatioWord(val.v) ELSE Err)
           ELSE IF row[4] THEN ToVec(val, row[3])
           ELSE Scalar(val, row[3])
  IN IF c.k = "ok" /\ row[3] = "u16"
        /\ \E i \in 1..Len(c.w) : ToNat(c.w[i]) \notin Codes(name)
     THEN Err
     ELSE IF c.k = "ok" /\ name = "resolution_unit" /\ ToNat(c.w[1]) \notin 1..3
     THEN [k |-> "any", w |-> <<>>]     \* unknown units may be dropped
     ELSE IF c.k = "ok" /\ row[3] = "string" /\ ~Utf8(c.w[1])
     THEN [k |-> "any", w |-> <<>>]
     ELSE IF c.k = "ok" /\ name = "bits_per_sample" /\ c.w = <<>>
     THEN Err
     ELSE c

SetTo(ws) == [s |-> "set", v |-> ws]
Unset     == [s |-> "unset", v |-> <<>>]
AnyField  == [s |-> "any", v |-> <<>>]

(***************************************************************************)
(* GeoKeys                                                                 *)
(***************************************************************************)
U16Keys == {1024, 1025, 2048, 2050, 2051, 2052, 2054, 2056, 2060,
            3072, 3074, 3075, 3076, 4096, 4098, 4099}
TextKeys == {1026, 2049, 3073, 4097}
F64Keys == {2053, 2055, 2057, 2058, 2059, 2061} \cup 3077..3095
GeoKeys == U16Keys \cup TextKeys \cup F64Keys
GeoKeyName == [k \in GeoKeys |->
  CASE k = 1024 -> "model_type" [] k = 1025 -> "raster_type" [] k = 1026 -> "citation"
    [] k = 2048 -> "geographic_type" [] k = 2049 -> "geog_citation"
    [] k = 2050 -> "geog_geodetic_datum" [] k = 2051 -> "geog_prime_meridian"
    [] k = 2052 -> "geog_linear_units" [] k = 2053 -> "geog_linear_unit_size"
    [] k = 2054 -> "geog_angular_units" [] k = 2055 -> "geog_angular_unit_size"
    [] k = 2056 -> "geog_ellipsoid" [] k = 2057 -> "geog_semi_major_axis"
    [] k = 2058 -> "geog_semi_minor_axis" [] k = 2059 -> "geog_inv_flattening"
    [] k = 2060 -> "geog_azimuth_units" [] k = 2061 -> "geog_prime_meridian_long"
    [] k = 3072 -> "projected_type" [] k = 3073 -> "proj_citation"
    [] k = 3074 -> "projection" [] k = 3075 -> "proj_coord_trans"
    [] k = 3076 -> "proj_linear_units" [] k = 3077 -> "proj_linear_unit_size"
    [] k = 3078 -> "proj_std_parallel1" [] k = 3079 -> "proj_std_parallel2"
    [] k = 3080 -> "proj_nat_origin_long" [] k = 3081 -> "proj_nat_origin_lat"
    [] k = 3082 -> "proj_false_easting" [] k = 3083 -> "proj_false_northing"
    [] k = 3084 -> "proj_false_origin_long" [] k = 3085 -> "proj_false_origin_lat"
    [] k = 3086 -> "proj_false_origin_easting" [] k = 3087 -> "proj_false_origin_northing"
    [] k = 3088 -> "proj_center_long" [] k = 3089 -> "proj_center_lat"
    [] k = 3090 -> "proj_center_easting" [] k = 3091 -> "proj_center_northing"
    [] k = 3092 -> "proj_scale_at_nat_origin" [] k = 3093 -> "proj_scale_at_center"
    [] k = 3094 -> "proj_azimuth_angle" [] k = 3095 -> "proj_straight_vert_pole_long"
    [] k = 4096 -> "vertical" [] k = 4097 -> "vertical_citation"
    [] k = 4098 -> "vertical_datum" [] k = 4099 -> "vertical_units"]
GeoNames == {GeoKeyName[k] : k \in GeoKeys}
KeyNamed == [nm \in GeoNames |-> CHOOSE k \in GeoKeys : GeoKeyName[k] = nm]

(* The value of one key entry e = <<id, location, count, offset>>          *)
(* (numbers); dbl / asc: parameter areas as conversion results or "none".  *)
GeoEntry(e, dbl, asc) ==
  IF e[2] = 0
  THEN IF e[1] \in U16Keys THEN Ok(<<OfNat(e[4], 2)>>) ELSE Err
  ELSE IF e[2] = GeoAsciiTag
  THEN IF asc.k # "ok" \/ e[4] + e[3] > Len(asc.w[1]) THEN Err
       ELSE LET s == Sub(asc.w[1], e[4] + 1, e[3])
                t == IF s # <<>> /\ s[Len(s)] = 124 THEN SubSeq(s, 1, Len(s) - 1) ELSE s
            IN IF e[1] \in TextKeys THEN Ok(<<t>>) ELSE Err
  ELSE IF e[2] = GeoDoubleTag
  THEN IF dbl.k # "ok" \/ e[4] + e[3] > Len(dbl.w) THEN Err
       ELSE IF e[3] # 1 THEN Err
       ELSE IF e[1] \in F64Keys THEN Ok(<<dbl.w[e[4] + 1]>>) ELSE Err
  ELSE [k |-> "any", w |-> <<>>]

GeoDir(words, dbl, asc) ==     \* words: the shorts of the key directory
  LET n == TLCEval([i \in 1..Len(words) |-> ToNat(words[i])])
      nk == n[4]
      ent == TLCEval([i \in 1..nk |-> Sub(n, 4 * i + 1, 4)])
      known == {i \in 1..nk : ent[i][1] \in GeoKeys}
      res == TLCEval([i \in known |-> GeoEntry(ent[i], dbl, asc)])
      at(k) == {i \in known : ent[i][1] = k}
  IN IF Len(n) < 4 \/ n[1] # 1 \/ n[2] # 1 THEN [k |-> "err"]
     ELSE IF Len(n) < 4 + 4 * nk THEN [k |-> "err"]
     ELSE IF \E i, j \in known : i # j /\ ent[i][1] = ent[j][1] THEN [k |-> "any"]
     ELSE IF asc.k = "ok" /\ \E i \in 1..Len(asc.w[1]) : asc.w[1][i] >= 128 THEN [k |-> "any"]
     ELSE IF \E i \in known : res[i].k = "err" THEN [k |-> "err"]
     ELSE [k |-> "ok",
           f |-> [nm \in GeoNames |->
                    LET key == KeyNamed[nm]
                    IN IF at(key) = {} THEN Unset
                       ELSE LET r == res[CHOOSE i \in at(key) : TRUE]
                            IN IF r.k = "any" THEN AnyField ELSE SetTo(r.w)]]

(***************************************************************************)
(* A whole directory from its entries <<[tag, val], ...>>                  *)
(***************************************************************************)
Required == {256, 257, 258, 262, 277}
DirErr == [k |-> "err"]
DirAny == [k |-> "any"]

DirOf(entries) ==
  LET idx == 1..Len(entries)
      tags == {entries[i].tag : i \in idx}
      valOf(t) == entries[CHOOSE i \in idx : entries[i].tag = t].val
      present == tags \cap FieldTags
      conv == TLCEval([t \in present |-> Convert(FieldTable[RowOf[t]], valOf(t))])
      dblR == TLCEval(IF GeoDoubleTag \in tags THEN ToVec(valOf(GeoDoubleTag), "f64")
                      ELSE [k |-> "none", w |-> <<>>])
      ascR == TLCEval(IF GeoAsciiTag \in tags THEN Scalar(valOf(GeoAsciiTag), "string")
                      ELSE [k |-> "none", w |-> <<>>])
      gk == TLCEval(IF GeoDirTag \in tags THEN ToVec(valOf(GeoDirTag), "u16")
                    ELSE [k |-> "none", w |-> <<>>])
      geo == IF gk.k = "ok" THEN GeoDir(gk.w, dblR, ascR) ELSE [k |-> "none"]
      spp == ToNat(conv[277].w[1])
      field(i) ==
        LET t == FTag(i)
            nm == FieldTable[i][2]
        IN IF t \in present
           THEN IF conv[t].k = "ok" THEN SetTo(conv[t].w) ELSE AnyField
           ELSE IF nm = "compression" THEN SetTo(<< <<0, 1>> >>)
           ELSE IF nm = "planar_configuration" THEN SetTo(<< <<0, 1>> >>)
           ELSE IF nm = "sample_format" THEN SetTo([j \in 1..spp |-> <<0, 1>>])
           ELSE Unset
      errs == (\E t \in present : conv[t].k = "err")
              \/ dblR.k = "err" \/ ascR.k = "err" \/ gk.k = "err" \/ geo.k = "err"
      frees == (\E t \in present : conv[t].k = "free") \/ gk.k = "free"
  IN IF Cardinality(tags) # Len(entries) THEN DirAny
     ELSE IF ~(Required \subseteq tags) THEN DirErr
     ELSE IF errs THEN DirErr
     ELSE IF frees \/ geo.k = "any" THEN DirAny
     ELSE [k |-> "ok",
           f |-> TLCEval([nm \in FieldNames |-> field(NameRow[nm])]),
           o |-> {entries[i] : i \in {j \in idx : entries[j].tag \notin OwnTags}},
           g |-> geo]

(***************************************************************************)
(* Agreement with an observed directory                                    *)
(*   obs.f : name -> [p, v]    obs.o : sequence of [tag, val]              *)
(*   obs.g : [p, f, e]         (e: EPSG code [p, v])                       *)
(***************************************************************************)
FieldAgrees(x, o) == \/ x.s = "any"
                     \/ x.s = "set" /\ o.p = 1 /\ o.v = x.v
                     \/ x.s = "unset" /\ o.p = 0
ValAgrees(val, oval) == val = oval \/ (val.t = "Ascii" /\ oval.t = "Ascii" /\ ~Utf8(val.v))
OtherAgrees(x, o) ==
  /\ Len(o) = Cardinality(x)
  /\ \A i \in 1..Len(o) : \E e \in x : e.tag = o[i].tag /\ ValAgrees(e.val, o[i].val)
Epsg(gf) == IF gf["projected_type"].s # "unset" THEN gf["projected_type"]
            ELSE gf["geographic_type"]
GeoAgrees(x, o) ==
  IF x.k = "none" THEN o.p = 0
  ELSE /\ o.p = 1
       /\ \A nm \in GeoNames : FieldAgrees(x.f[nm], o.f[nm])
       /\ FieldAgrees(Epsg(x.f), o.e)
DirAgrees(x, o) ==
  /\ \A nm \in FieldNames : FieldAgrees(x.f[nm], o.f[nm])
  /\ OtherAgrees(x.o, o.o)
  /\ GeoAgrees(x.g, o.g)
=============================================================================
