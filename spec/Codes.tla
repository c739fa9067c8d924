------------------------------- MODULE Codes -------------------------------
(***************************************************************************)
(* The names that TIFF 6.0, its supplements and GDAL give to the codes of  *)
(* tags and of enumerated fields: what a user of the enumerations of the   *)
(* tags module compares with.  A code without a name here may have one in  *)
(* an implementation, as long as it is no name from here.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

TagCodes == {
  <<254, "NewSubfileType">>, <<255, "SubfileType">>, <<256, "ImageWidth">>, <<257, "ImageLength">>,
  <<258, "BitsPerSample">>, <<259, "Compression">>, <<262, "PhotometricInterpretation">>,
  <<263, "Threshholding">>, <<264, "CellWidth">>, <<265, "CellLength">>, <<266, "FillOrder">>,
  <<270, "ImageDescription">>, <<271, "Make">>, <<272, "Model">>, <<273, "StripOffsets">>,
  <<274, "Orientation">>, <<277, "SamplesPerPixel">>, <<278, "RowsPerStrip">>,
  <<279, "StripByteCounts">>, <<280, "MinSampleValue">>, <<281, "MaxSampleValue">>,
  <<282, "XResolution">>, <<283, "YResolution">>, <<284, "PlanarConfiguration">>,
  <<288, "FreeOffsets">>, <<289, "FreeByteCounts">>, <<290, "GrayResponseUnit">>,
  <<291, "GrayResponseCurve">>, <<296, "ResolutionUnit">>, <<305, "Software">>, <<306, "DateTime">>,
  <<315, "Artist">>, <<316, "HostComputer">>, <<317, "Predictor">>, <<320, "ColorMap">>,
  <<322, "TileWidth">>, <<323, "TileLength">>, <<324, "TileOffsets">>, <<325, "TileByteCounts">>,
  <<338, "ExtraSamples">>, <<339, "SampleFormat">>, <<340, "SMinSampleValue">>,
  <<341, "SMaxSampleValue">>, <<347, "JPEGTables">>, <<33432, "Copyright">>,
  <<33550, "ModelPixelScale">>, <<33922, "ModelTiepoint">>, <<34264, "ModelTransformation">>,
  <<34735, "GeoKeyDirectory">>, <<34736, "GeoDoubleParams">>, <<34737, "GeoAsciiParams">>,
  <<42112, "GdalMetadata">>, <<42113, "GdalNodata">>, <<50674, "LercParameters">> }
TypeNames == {
  <<1, "BYTE">>, <<2, "ASCII">>, <<3, "SHORT">>, <<4, "LONG">>, <<5, "RATIONAL">>, <<6, "SBYTE">>,
  <<7, "UNDEFINED">>, <<8, "SSHORT">>, <<9, "SLONG">>, <<10, "SRATIONAL">>, <<11, "FLOAT">>,
  <<12, "DOUBLE">>, <<13, "IFD">>, <<16, "LONG8">>, <<17, "SLONG8">>, <<18, "IFD8">> }
Compressions == {
  <<1, "None">>, <<2, "Huffman">>, <<3, "Fax3">>, <<4, "Fax4">>, <<5, "LZW">>, <<6, "JPEG">>,
  <<7, "ModernJPEG">>, <<8, "Deflate">>, <<32773, "PackBits">>, <<32946, "OldDeflate">>,
  <<34712, "JPEG2k">>, <<34887, "LERC">>, <<34925, "LZMA">>, <<50000, "ZSTD">>, <<50001, "WebP">> }
Photometrics == {
  <<0, "WhiteIsZero">>, <<1, "BlackIsZero">>, <<2, "RGB">>, <<3, "RGBPalette">>,
  <<4, "TransparencyMask">>, <<5, "CMYK">>, <<6, "YCbCr">>, <<8, "CIELab">> }

NameTable(e) ==
  CASE e = "Tag" -> TagCodes
    [] e = "Type" -> TypeNames
    [] e = "Compression" -> Compressions
    [] e = "PhotometricInterpretation" -> Photometrics
    [] e = "ExtraSamples" -> {<<0, "Unspecified">>, <<1, "AssociatedAlpha">>, <<2, "UnassociatedAlpha">>}
    [] e = "PlanarConfiguration" -> {<<1, "Chunky">>, <<2, "Planar">>}
    [] e = "Predictor" -> {<<1, "None">>, <<2, "Horizontal">>, <<3, "FloatingPoint">>}
    [] e = "ResolutionUnit" -> {<<1, "None">>, <<2, "Inch">>, <<3, "Centimeter">>}
    [] e = "SampleFormat" -> {<<1, "Uint">>, <<2, "Int">>, <<3, "Float">>, <<4, "Void">>}
Open(e) == e \in {"Tag", "Compression", "SampleFormat"}     \* any code has a value

(* An observation: e, the enumeration; known, its [c, name, back] for the   *)
(* codes (of all 65536) it has a name for, back the code of that value;    *)
(* odd, how many of the other codes do not come back as themselves.        *)
CodesAgree(o) ==
  LET tab == NameTable(o.e)
      got == { <<o.known[i].c, o.known[i].name>> : i \in 1..Len(o.known) }
      named == { p[1] : p \in tab }
      names == { p[2] : p \in tab }
  IN /\ tab \subseteq got
     /\ \A i \in 1..Len(o.known) : o.known[i].back = o.known[i].c
     /\ \A p \in got : p \in tab \/ (p[1] \notin named /\ p[2] \notin names)
     /\ o.odd = 0
     /\ o.panic = 0
=============================================================================
