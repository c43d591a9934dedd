package h

// reference documents: one body item with every part present
var goldenXML = map[string]string{
	"para":       `<w:p><w:pPr><w:tabs><w:tab w:val="v143" w:pos="1142"></w:tab><w:tab w:val="v145" w:pos="1144"></w:tab></w:tabs><w:spacing w:val="1140" w:beforeLines="1137" w:before="1136" w:line="1138" w:lineRule="v139"></w:spacing><w:numPr><w:numId w:val="v102"></w:numId><w:ilvl w:val="v101"></w:ilvl></w:numPr><w:ind w:leftChars="1097" w:left="1096" w:firstLineChars="1093" w:firstLine="1092" w:hangingChars="1095" w:hanging="1094"></w:ind><w:jc w:val="v98"></w:jc><w:shd w:val="v134" w:color="v130" w:fill="v131" w:themeFill="v132" w:themeFillTint="v133"></w:shd><w:kern w:val="1099"></w:kern><w:pStyle w:val="v141"></w:pStyle><w:textAlignment w:val="v146"></w:textAlignment><w:adjustRightInd w:val="1091"></w:adjustRightInd><w:snapToGrid w:val="1135"></w:snapToGrid><w:kinsoku w:val="1100"></w:kinsoku><w:overflowPunct w:val="1103"></w:overflowPunct><w:rPr><w:rFonts w:ascii="v106" w:eastAsia="v107" w:hAnsi="v108" w:hint="v109"></w:rFonts><w:b w:val="v104"></w:b><w:iCs></w:iCs><w:i w:val="v111"></w:i><w:highlight w:val="v110"></w:highlight><w:color w:val="v105"></w:color><w:sz w:val="v119"></w:sz><w:szCs w:val="v120"></w:szCs><w:spacing w:val="1125" w:beforeLines="1122" w:before="1121" w:line="1123" w:lineRule="v124"></w:spacing><w:rStyle w:val="v113"></w:rStyle><w:pStyle w:val="v127"></w:pStyle><w:shd w:val="v118" w:color="v114" w:fill="v115" w:themeFill="v116" w:themeFillTint="v117"></w:shd><w:kern w:val="1112"></w:kern><w:u w:val="v128"></w:u><w:vertAlign w:val="v129"></w:vertAlign><w:strike w:val="v126"></w:strike></w:rPr></w:pPr><w:r xml:space="preserve"><w:rPr><w:rFonts w:ascii="v6" w:eastAsia="v7" w:hAnsi="v8" w:hint="v9"></w:rFonts><w:b w:val="v4"></w:b><w:iCs></w:iCs><w:i w:val="v11"></w:i><w:highlight w:val="v10"></w:highlight><w:color w:val="v5"></w:color><w:sz w:val="v19"></w:sz><w:szCs w:val="v20"></w:szCs><w:spacing w:val="1025" w:beforeLines="1022" w:before="1021" w:line="1023" w:lineRule="v24"></w:spacing><w:rStyle w:val="v13"></w:rStyle><w:pStyle w:val="v27"></w:pStyle><w:shd w:val="v18" w:color="v14" w:fill="v15" w:themeFill="v16" w:themeFillTint="v17"></w:shd><w:kern w:val="1012"></w:kern><w:u w:val="v28"></w:u><w:vertAlign w:val="v29"></w:vertAlign><w:strike w:val="v26"></w:strike></w:rPr><w:instrText>v3</w:instrText><w:t xml:space="preserve">v0</w:t><w:tab></w:tab><w:br w:type="v1"></w:br><w:t xml:space="preserve">v2</w:t></w:r><w:hyperlink r:id="v30"><w:r xml:space="preserve"><w:rPr><w:rFonts w:ascii="v37" w:eastAsia="v38" w:hAnsi="v39" w:hint="v40"></w:rFonts><w:b w:val="v35"></w:b><w:iCs></w:iCs><w:i w:val="v42"></w:i><w:highlight w:val="v41"></w:highlight><w:color w:val="v36"></w:color><w:sz w:val="v50"></w:sz><w:szCs w:val="v51"></w:szCs><w:spacing w:val="1056" w:beforeLines="1053" w:before="1052" w:line="1054" w:lineRule="v55"></w:spacing><w:rStyle w:val="v44"></w:rStyle><w:pStyle w:val="v58"></w:pStyle><w:shd w:val="v49" w:color="v45" w:fill="v46" w:themeFill="v47" w:themeFillTint="v48"></w:shd><w:kern w:val="1043"></w:kern><w:u w:val="v59"></w:u><w:vertAlign w:val="v60"></w:vertAlign><w:strike w:val="v57"></w:strike></w:rPr><w:instrText>v34</w:instrText><w:t xml:space="preserve">v31</w:t><w:tab></w:tab><w:br w:type="v32"></w:br><w:t xml:space="preserve">v33</w:t></w:r></w:hyperlink><w:r xml:space="preserve"><w:rPr><w:rFonts w:ascii="v67" w:eastAsia="v68" w:hAnsi="v69" w:hint="v70"></w:rFonts><w:b w:val="v65"></w:b><w:iCs></w:iCs><w:i w:val="v72"></w:i><w:highlight w:val="v71"></w:highlight><w:color w:val="v66"></w:color><w:sz w:val="v80"></w:sz><w:szCs w:val="v81"></w:szCs><w:spacing w:val="1086" w:beforeLines="1083" w:before="1082" w:line="1084" w:lineRule="v85"></w:spacing><w:rStyle w:val="v74"></w:rStyle><w:pStyle w:val="v88"></w:pStyle><w:shd w:val="v79" w:color="v75" w:fill="v76" w:themeFill="v77" w:themeFillTint="v78"></w:shd><w:kern w:val="1073"></w:kern><w:u w:val="v89"></w:u><w:vertAlign w:val="v90"></w:vertAlign><w:strike w:val="v87"></w:strike></w:rPr><w:instrText>v64</w:instrText><w:t xml:space="preserve">v61</w:t><w:tab></w:tab><w:br w:type="v62"></w:br><w:t xml:space="preserve">v63</w:t></w:r></w:p>`,
	"section":    `<w:sectPr><w:pgSz w:w="1011" w:h="1010"></w:pgSz><w:pgMar w:top="1009" w:left="1007" w:bottom="1003" w:right="1008" w:header="1006" w:footer="1004" w:gutter="1005"></w:pgMar><w:cols w:space="1000"></w:cols><w:docGrid w:type="v2" w:linePitch="1001"></w:docGrid></w:sectPr>`,
	"table":      `<w:tbl><w:tblPr><w:tblpPr w:leftFromText="1011" w:rightFromText="1012" w:vertAnchor="v17" w:horzAnchor="v10" w:tblpXSpec="v14" w:tblpYSpec="v16" w:tblpX="1013" w:tblpY="1015"></w:tblpPr><w:tblStyle w:val="v18"></w:tblStyle><w:tblW w:w="1044" w:type="v43"></w:tblW><w:jc w:val="v2"></w:jc><w:tblBorders><w:top w:val="v42" w:sz="1040" w:space="1041" w:color="v39"></w:top><w:left w:val="v34" w:sz="1032" w:space="1033" w:color="v31"></w:left><w:bottom w:val="v22" w:sz="1020" w:space="1021" w:color="v19"></w:bottom><w:right w:val="v38" w:sz="1036" w:space="1037" w:color="v35"></w:right><w:insideH w:val="v26" w:sz="1024" w:space="1025" w:color="v23"></w:insideH><w:insideV w:val="v30" w:sz="1028" w:space="1029" w:color="v27"></w:insideV></w:tblBorders><w:tblLook w:val="v9" w:firstRow="0" w:lastRow="0" w:firstColumn="1" w:lastColumn="1" w:noHBand="1" w:noVBand="0"></w:tblLook></w:tblPr><w:tblGrid><w:gridCol w:w="1000"></w:gridCol><w:gridCol w:w="1001"></w:gridCol></w:tblGrid><w:tr><w:trPr><w:trHeight w:hRule="v118" w:val="1119"></w:trHeight><w:jc w:val="v117"></w:jc></w:trPr><w:tc><w:tcPr><w:tcW w:w="1078" w:type="v77"></w:tcW><w:vMerge w:val="v80"></w:vMerge><w:gridSpan w:val="1047"></w:gridSpan><w:tcBorders><w:top w:val="v76" w:sz="1074" w:space="1075" w:color="v73"></w:top><w:left w:val="v68" w:sz="1066" w:space="1067" w:color="v65"></w:left><w:bottom w:val="v56" w:sz="1054" w:space="1055" w:color="v53"></w:bottom><w:right w:val="v72" w:sz="1070" w:space="1071" w:color="v69"></w:right><w:insideH w:val="v60" w:sz="1058" w:space="1059" w:color="v57"></w:insideH><w:insideV w:val="v64" w:sz="1062" w:space="1063" w:color="v61"></w:insideV></w:tcBorders><w:shd w:val="v52" w:color="v48" w:fill="v49" w:themeFill="v50" w:themeFillTint="v51"></w:shd><w:vAlign w:val="v79"></w:vAlign></w:tcPr><w:p><w:r><w:t>v45</w:t></w:r></w:p><w:p><w:r><w:t>v46</w:t></w:r></w:p></w:tc><w:tc><w:tcPr><w:tcW w:w="1114" w:type="v113"></w:tcW><w:vMerge w:val="v116"></w:vMerge><w:gridSpan w:val="1083"></w:gridSpan><w:tcBorders><w:top w:val="v112" w:sz="1110" w:space="1111" w:color="v109"></w:top><w:left w:val="v104" w:sz="1102" w:space="1103" w:color="v101"></w:left><w:bottom w:val="v92" w:sz="1090" w:space="1091" w:color="v89"></w:bottom><w:right w:val="v108" w:sz="1106" w:space="1107" w:color="v105"></w:right><w:insideH w:val="v96" w:sz="1094" w:space="1095" w:color="v93"></w:insideH><w:insideV w:val="v100" w:sz="1098" w:space="1099" w:color="v97"></w:insideV></w:tcBorders><w:shd w:val="v88" w:color="v84" w:fill="v85" w:themeFill="v86" w:themeFillTint="v87"></w:shd><w:vAlign w:val="v115"></w:vAlign></w:tcPr><w:p><w:r><w:t>v81</w:t></w:r></w:p><w:p><w:r><w:t>v82</w:t></w:r></w:p></w:tc></w:tr><w:tr><w:trPr><w:trHeight w:hRule="v193" w:val="1194"></w:trHeight><w:jc w:val="v192"></w:jc></w:trPr><w:tc><w:tcPr><w:tcW w:w="1153" w:type="v152"></w:tcW><w:vMerge w:val="v155"></w:vMerge><w:gridSpan w:val="1122"></w:gridSpan><w:tcBorders><w:top w:val="v151" w:sz="1149" w:space="1150" w:color="v148"></w:top><w:left w:val="v143" w:sz="1141" w:space="1142" w:color="v140"></w:left><w:bottom w:val="v131" w:sz="1129" w:space="1130" w:color="v128"></w:bottom><w:right w:val="v147" w:sz="1145" w:space="1146" w:color="v144"></w:right><w:insideH w:val="v135" w:sz="1133" w:space="1134" w:color="v132"></w:insideH><w:insideV w:val="v139" w:sz="1137" w:space="1138" w:color="v136"></w:insideV></w:tcBorders><w:shd w:val="v127" w:color="v123" w:fill="v124" w:themeFill="v125" w:themeFillTint="v126"></w:shd><w:vAlign w:val="v154"></w:vAlign></w:tcPr><w:p><w:r><w:t>v120</w:t></w:r></w:p><w:p><w:r><w:t>v121</w:t></w:r></w:p></w:tc><w:tc><w:tcPr><w:tcW w:w="1189" w:type="v188"></w:tcW><w:vMerge w:val="v191"></w:vMerge><w:gridSpan w:val="1158"></w:gridSpan><w:tcBorders><w:top w:val="v187" w:sz="1185" w:space="1186" w:color="v184"></w:top><w:left w:val="v179" w:sz="1177" w:space="1178" w:color="v176"></w:left><w:bottom w:val="v167" w:sz="1165" w:space="1166" w:color="v164"></w:bottom><w:right w:val="v183" w:sz="1181" w:space="1182" w:color="v180"></w:right><w:insideH w:val="v171" w:sz="1169" w:space="1170" w:color="v168"></w:insideH><w:insideV w:val="v175" w:sz="1173" w:space="1174" w:color="v172"></w:insideV></w:tcBorders><w:shd w:val="v163" w:color="v159" w:fill="v160" w:themeFill="v161" w:themeFillTint="v162"></w:shd><w:vAlign w:val="v190"></w:vAlign></w:tcPr><w:p><w:r><w:t>v156</w:t></w:r></w:p><w:p><w:r><w:t>v157</w:t></w:r></w:p></w:tc></w:tr></w:tbl>`,
	"inline":     `<w:p><w:r><w:drawing><wp:inline distT="1004" distB="1001" distL="1002" distR="1003"><wp:extent cx="1011" cy="1012"></wp:extent><wp:effectExtent l="1008" t="1010" r="1009" b="1007"></wp:effectExtent><wp:docPr id="1005" name="v6"></wp:docPr><wp:cNvGraphicFramePr><a:graphicFrameLocks xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main" noChangeAspect="1000"></a:graphicFrameLocks></wp:cNvGraphicFramePr><a:graphic xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main"></a:graphic></wp:inline></w:drawing></w:r></w:p>`,
	"anchor":     `<w:p><w:r><w:drawing><wp:anchor distT="1006" distB="1003" distL="1004" distR="1005" simplePos="1022" relativeHeight="1021" behindDoc="1001" locked="1016" layoutInCell="1015" allowOverlap="1000"><wp:simplePos x="1023" y="1024"></wp:simplePos><wp:positionH relativeFrom="v18"><wp:posOffset>1017</wp:posOffset></wp:positionH><wp:positionV relativeFrom="v20"><wp:posOffset>1019</wp:posOffset></wp:positionV><wp:extent cx="1013" cy="1014"></wp:extent><wp:effectExtent l="1010" t="1012" r="1011" b="1009"></wp:effectExtent><wp:wrapNone></wp:wrapNone><wp:wrapSquare wrapText="v25"></wp:wrapSquare><wp:docPr id="1007" name="v8"></wp:docPr><wp:cNvGraphicFramePr><a:graphicFrameLocks xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main" noChangeAspect="1002"></a:graphicFrameLocks></wp:cNvGraphicFramePr><a:graphic xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main"></a:graphic></wp:anchor></w:drawing></w:r></w:p>`,
	"picture":    `<w:p><w:r><w:drawing><wp:inline distT="0" distB="0" distL="0" distR="0"><a:graphic><a:graphicData uri=""><pic:pic xmlns:pic="http://schemas.openxmlformats.org/drawingml/2006/picture"><pic:nvPicPr><pic:cNvPr id="1004" name="v5"></pic:cNvPr><pic:cNvPicPr><a:picLocks noChangeAspect="1003"></a:picLocks></pic:cNvPicPr></pic:nvPicPr><pic:blipFill><a:blip r:embed="v2" cstate="v1"><a:alphaModFix amt="1000"></a:alphaModFix></a:blip><a:stretch><a:fillRect></a:fillRect></a:stretch></pic:blipFill><pic:spPr><a:xfrm rot="1017" flipH="1013" flipV="1014"><a:off x="1015" y="1016"></a:off><a:ext cx="1011" cy="1012"></a:ext><a:chOff x="1009" y="1010"></a:chOff><a:chExt cx="1007" cy="1008"></a:chExt></a:xfrm><a:prstGeom prst="v6"><a:avLst></a:avLst></a:prstGeom></pic:spPr></pic:pic></a:graphicData></a:graphic></wp:inline></w:drawing></w:r></w:p>`,
	"shape":      `<w:p><w:r><w:drawing><wp:inline distT="0" distB="0" distL="0" distR="0"><a:graphic><a:graphicData uri=""><wps:wsp><wps:cNvPr id="1010" name="v11"></wps:cNvPr><wps:cNvCnPr><a:cxnSpLocks></a:cxnSpLocks></wps:cNvCnPr><wps:cNvSpPr txBox="1013"><a:spLocks noChangeArrowheads="1012"></a:spLocks></wps:cNvSpPr><wps:spPr bwMode="v14"><a:xfrm rot="1051" flipH="1047" flipV="1048"><a:off x="1049" y="1050"></a:off><a:ext cx="1045" cy="1046"></a:ext><a:chOff x="1043" y="1044"></a:chOff><a:chExt cx="1041" cy="1042"></a:chExt></a:xfrm><a:prstGeom prst="v39"><a:avLst></a:avLst></a:prstGeom><a:solidFill><a:srgbClr val="v40"></a:srgbClr></a:solidFill><a:blipFill dpi="1018" rotWithShape="1019"><a:blip r:embed="v17" cstate="v16"><a:alphaModFix amt="1015"></a:alphaModFix></a:blip><a:srcRect></a:srcRect><a:tile tx="1024" ty="1025" sx="1022" sy="1023" flip="v21" algn="v20"></a:tile></a:blipFill><a:noFill></a:noFill><a:ln w="1038" cap="v27" cmpd="v28" algn="v26"><a:noFill></a:noFill><a:solidFill><a:srgbClr val="v34"></a:srgbClr></a:solidFill><a:prstDash val="v33"></a:prstDash><a:miter lim="v32"></a:miter><a:round></a:round><a:headEnd type="v30" w="v31" len="v29"></a:headEnd><a:tailEnd type="v36" w="v37" len="v35"></a:tailEnd></a:ln></wps:spPr><wps:txbx><w:txbxContent><w:p><w:r><w:t>v52</w:t></w:r></w:p><w:p><w:r><w:t>v53</w:t></w:r></w:p></w:txbxContent></wps:txbx><wps:bodyPr rot="1005" vert="v8" wrap="v9" lIns="1003" tIns="1006" rIns="1004" bIns="1002" anchor="v0" anchorCtr="1001" upright="1007"><a:noAutofit></a:noAutofit></wps:bodyPr></wps:wsp></a:graphicData></a:graphic></wp:inline></w:drawing></w:r></w:p>`,
	"canvas":     `<w:p><w:r><w:drawing><wp:inline distT="0" distB="0" distL="0" distR="0"><a:graphic><a:graphicData uri=""><wpc:wpc><wpc:bg><a:noFill></a:noFill></wpc:bg><wpc:whole><a:ln w="1018" cap="v7" cmpd="v8" algn="v6"><a:noFill></a:noFill><a:solidFill><a:srgbClr val="v14"></a:srgbClr></a:solidFill><a:prstDash val="v13"></a:prstDash><a:miter lim="v12"></a:miter><a:round></a:round><a:headEnd type="v10" w="v11" len="v9"></a:headEnd><a:tailEnd type="v16" w="v17" len="v15"></a:tailEnd></a:ln></wpc:whole><pic:pic xmlns:pic="http://schemas.openxmlformats.org/drawingml/2006/picture"><pic:nvPicPr><pic:cNvPr id="1000" name="v1"></pic:cNvPr><pic:cNvPicPr></pic:cNvPicPr></pic:nvPicPr></pic:pic><wps:wsp><wps:cNvPr id="1002" name="v3"></wps:cNvPr></wps:wsp><wpg:wgp><pic:pic xmlns:pic="http://schemas.openxmlformats.org/drawingml/2006/picture"><pic:nvPicPr><pic:cNvPr id="1000" name="v1"></pic:cNvPr><pic:cNvPicPr></pic:cNvPicPr></pic:nvPicPr></pic:pic><wps:wsp><wps:cNvPr id="1002" name="v3"></wps:cNvPr></wps:wsp></wpg:wgp><pic:pic xmlns:pic="http://schemas.openxmlformats.org/drawingml/2006/picture"><pic:nvPicPr><pic:cNvPr id="1000" name="v1"></pic:cNvPr><pic:cNvPicPr></pic:cNvPicPr></pic:nvPicPr></pic:pic></wpc:wpc></a:graphicData></a:graphic></wp:inline></w:drawing></w:r></w:p>`,
	"group":      `<w:p><w:r><w:drawing><wp:inline distT="0" distB="0" distL="0" distR="0"><a:graphic><a:graphicData uri=""><wpg:wgp><wpg:cNvGrpSpPr><a:grpSpLocks></a:grpSpLocks></wpg:cNvGrpSpPr><wpg:grpSpPr bwMode="v6"><a:xfrm rot="1043" flipH="1039" flipV="1040"><a:off x="1041" y="1042"></a:off><a:ext cx="1037" cy="1038"></a:ext><a:chOff x="1035" y="1036"></a:chOff><a:chExt cx="1033" cy="1034"></a:chExt></a:xfrm><a:prstGeom prst="v31"><a:avLst></a:avLst></a:prstGeom><a:solidFill><a:srgbClr val="v32"></a:srgbClr></a:solidFill><a:blipFill dpi="1010" rotWithShape="1011"><a:blip r:embed="v9" cstate="v8"><a:alphaModFix amt="1007"></a:alphaModFix></a:blip><a:srcRect></a:srcRect><a:tile tx="1016" ty="1017" sx="1014" sy="1015" flip="v13" algn="v12"></a:tile></a:blipFill><a:noFill></a:noFill><a:ln w="1030" cap="v19" cmpd="v20" algn="v18"><a:noFill></a:noFill><a:solidFill><a:srgbClr val="v26"></a:srgbClr></a:solidFill><a:prstDash val="v25"></a:prstDash><a:miter lim="v24"></a:miter><a:round></a:round><a:headEnd type="v22" w="v23" len="v21"></a:headEnd><a:tailEnd type="v28" w="v29" len="v27"></a:tailEnd></a:ln></wpg:grpSpPr><pic:pic xmlns:pic="http://schemas.openxmlformats.org/drawingml/2006/picture"><pic:nvPicPr><pic:cNvPr id="1000" name="v1"></pic:cNvPr><pic:cNvPicPr></pic:cNvPicPr></pic:nvPicPr></pic:pic><wps:wsp><wps:cNvPr id="1002" name="v3"></wps:cNvPr></wps:wsp><wpc:wpc><wps:wsp><wps:cNvPr id="1002" name="v3"></wps:cNvPr></wps:wsp><pic:pic xmlns:pic="http://schemas.openxmlformats.org/drawingml/2006/picture"><pic:nvPicPr><pic:cNvPr id="1000" name="v1"></pic:cNvPr><pic:cNvPicPr></pic:cNvPicPr></pic:nvPicPr></pic:pic></wpc:wpc><wpg:grpSp><wpg:cNvPr id="1004" name="v5"></wpg:cNvPr><wps:wsp><wps:cNvPr id="1002" name="v3"></wps:cNvPr></wps:wsp><pic:pic xmlns:pic="http://schemas.openxmlformats.org/drawingml/2006/picture"><pic:nvPicPr><pic:cNvPr id="1000" name="v1"></pic:cNvPr><pic:cNvPicPr></pic:cNvPicPr></pic:nvPicPr></pic:pic><wpc:wpc><wps:wsp><wps:cNvPr id="1002" name="v3"></wps:cNvPr></wps:wsp><pic:pic xmlns:pic="http://schemas.openxmlformats.org/drawingml/2006/picture"><pic:nvPicPr><pic:cNvPr id="1000" name="v1"></pic:cNvPr><pic:cNvPicPr></pic:cNvPicPr></pic:nvPicPr></pic:pic></wpc:wpc></wpg:grpSp><wps:wsp><wps:cNvPr id="1002" name="v3"></wps:cNvPr></wps:wsp></wpg:wgp></a:graphicData></a:graphic></wp:inline></w:drawing></w:r></w:p>`,
	"groupshape": `<w:p><w:r><w:drawing><wp:inline distT="0" distB="0" distL="0" distR="0"><a:graphic><a:graphicData uri=""><wpg:wgp><wpg:grpSp><wpg:cNvPr id="1000" name="v1"></wpg:cNvPr><wpg:cNvGrpSpPr><a:grpSpLocks></a:grpSpLocks></wpg:cNvGrpSpPr><wpg:grpSpPr bwMode="v8"><a:xfrm rot="1045" flipH="1041" flipV="1042"><a:off x="1043" y="1044"></a:off><a:ext cx="1039" cy="1040"></a:ext><a:chOff x="1037" y="1038"></a:chOff><a:chExt cx="1035" cy="1036"></a:chExt></a:xfrm><a:prstGeom prst="v33"><a:avLst></a:avLst></a:prstGeom><a:solidFill><a:srgbClr val="v34"></a:srgbClr></a:solidFill><a:blipFill dpi="1012" rotWithShape="1013"><a:blip r:embed="v11" cstate="v10"><a:alphaModFix amt="1009"></a:alphaModFix></a:blip><a:srcRect></a:srcRect><a:tile tx="1018" ty="1019" sx="1016" sy="1017" flip="v15" algn="v14"></a:tile></a:blipFill><a:noFill></a:noFill><a:ln w="1032" cap="v21" cmpd="v22" algn="v20"><a:noFill></a:noFill><a:solidFill><a:srgbClr val="v28"></a:srgbClr></a:solidFill><a:prstDash val="v27"></a:prstDash><a:miter lim="v26"></a:miter><a:round></a:round><a:headEnd type="v24" w="v25" len="v23"></a:headEnd><a:tailEnd type="v30" w="v31" len="v29"></a:tailEnd></a:ln></wpg:grpSpPr><pic:pic xmlns:pic="http://schemas.openxmlformats.org/drawingml/2006/picture"><pic:nvPicPr><pic:cNvPr id="1002" name="v3"></pic:cNvPr><pic:cNvPicPr></pic:cNvPicPr></pic:nvPicPr></pic:pic><wps:wsp><wps:cNvPr id="1004" name="v5"></wps:cNvPr></wps:wsp><wpc:wpc><wps:wsp><wps:cNvPr id="1004" name="v5"></wps:cNvPr></wps:wsp><pic:pic xmlns:pic="http://schemas.openxmlformats.org/drawingml/2006/picture"><pic:nvPicPr><pic:cNvPr id="1002" name="v3"></pic:cNvPr><pic:cNvPicPr></pic:cNvPicPr></pic:nvPicPr></pic:pic></wpc:wpc><pic:pic xmlns:pic="http://schemas.openxmlformats.org/drawingml/2006/picture"><pic:nvPicPr><pic:cNvPr id="1002" name="v3"></pic:cNvPr><pic:cNvPicPr></pic:cNvPicPr></pic:nvPicPr></pic:pic></wpg:grpSp></wpg:wgp></a:graphicData></a:graphic></wp:inline></w:drawing></w:r></w:p>`,
}

// the same with attributes and unordered children reversed
var goldenRev = map[string]string{
	"para":       `<w:p><w:pPr><w:rPr><w:strike w:val="v126"></w:strike><w:vertAlign w:val="v129"></w:vertAlign><w:u w:val="v128"></w:u><w:kern w:val="1112"></w:kern><w:shd w:themeFillTint="v117" w:themeFill="v116" w:fill="v115" w:color="v114" w:val="v118"></w:shd><w:pStyle w:val="v127"></w:pStyle><w:rStyle w:val="v113"></w:rStyle><w:spacing w:lineRule="v124" w:line="1123" w:before="1121" w:beforeLines="1122" w:val="1125"></w:spacing><w:szCs w:val="v120"></w:szCs><w:sz w:val="v119"></w:sz><w:color w:val="v105"></w:color><w:highlight w:val="v110"></w:highlight><w:i w:val="v111"></w:i><w:iCs></w:iCs><w:b w:val="v104"></w:b><w:rFonts w:hint="v109" w:hAnsi="v108" w:eastAsia="v107" w:ascii="v106"></w:rFonts></w:rPr><w:overflowPunct w:val="1103"></w:overflowPunct><w:kinsoku w:val="1100"></w:kinsoku><w:snapToGrid w:val="1135"></w:snapToGrid><w:adjustRightInd w:val="1091"></w:adjustRightInd><w:textAlignment w:val="v146"></w:textAlignment><w:pStyle w:val="v141"></w:pStyle><w:kern w:val="1099"></w:kern><w:shd w:themeFillTint="v133" w:themeFill="v132" w:fill="v131" w:color="v130" w:val="v134"></w:shd><w:jc w:val="v98"></w:jc><w:ind w:hanging="1094" w:hangingChars="1095" w:firstLine="1092" w:firstLineChars="1093" w:left="1096" w:leftChars="1097"></w:ind><w:numPr><w:ilvl w:val="v101"></w:ilvl><w:numId w:val="v102"></w:numId></w:numPr><w:spacing w:lineRule="v139" w:line="1138" w:before="1136" w:beforeLines="1137" w:val="1140"></w:spacing><w:tabs><w:tab w:pos="1142" w:val="v143"></w:tab><w:tab w:pos="1144" w:val="v145"></w:tab></w:tabs></w:pPr><w:r xml:space="preserve"><w:rPr><w:strike w:val="v26"></w:strike><w:vertAlign w:val="v29"></w:vertAlign><w:u w:val="v28"></w:u><w:kern w:val="1012"></w:kern><w:shd w:themeFillTint="v17" w:themeFill="v16" w:fill="v15" w:color="v14" w:val="v18"></w:shd><w:pStyle w:val="v27"></w:pStyle><w:rStyle w:val="v13"></w:rStyle><w:spacing w:lineRule="v24" w:line="1023" w:before="1021" w:beforeLines="1022" w:val="1025"></w:spacing><w:szCs w:val="v20"></w:szCs><w:sz w:val="v19"></w:sz><w:color w:val="v5"></w:color><w:highlight w:val="v10"></w:highlight><w:i w:val="v11"></w:i><w:iCs></w:iCs><w:b w:val="v4"></w:b><w:rFonts w:hint="v9" w:hAnsi="v8" w:eastAsia="v7" w:ascii="v6"></w:rFonts></w:rPr><w:instrText>v3</w:instrText><w:t xml:space="preserve">v0</w:t><w:tab></w:tab><w:br w:type="v1"></w:br><w:t xml:space="preserve">v2</w:t></w:r><w:hyperlink r:id="v30"><w:r xml:space="preserve"><w:rPr><w:strike w:val="v57"></w:strike><w:vertAlign w:val="v60"></w:vertAlign><w:u w:val="v59"></w:u><w:kern w:val="1043"></w:kern><w:shd w:themeFillTint="v48" w:themeFill="v47" w:fill="v46" w:color="v45" w:val="v49"></w:shd><w:pStyle w:val="v58"></w:pStyle><w:rStyle w:val="v44"></w:rStyle><w:spacing w:lineRule="v55" w:line="1054" w:before="1052" w:beforeLines="1053" w:val="1056"></w:spacing><w:szCs w:val="v51"></w:szCs><w:sz w:val="v50"></w:sz><w:color w:val="v36"></w:color><w:highlight w:val="v41"></w:highlight><w:i w:val="v42"></w:i><w:iCs></w:iCs><w:b w:val="v35"></w:b><w:rFonts w:hint="v40" w:hAnsi="v39" w:eastAsia="v38" w:ascii="v37"></w:rFonts></w:rPr><w:instrText>v34</w:instrText><w:t xml:space="preserve">v31</w:t><w:tab></w:tab><w:br w:type="v32"></w:br><w:t xml:space="preserve">v33</w:t></w:r></w:hyperlink><w:r xml:space="preserve"><w:rPr><w:strike w:val="v87"></w:strike><w:vertAlign w:val="v90"></w:vertAlign><w:u w:val="v89"></w:u><w:kern w:val="1073"></w:kern><w:shd w:themeFillTint="v78" w:themeFill="v77" w:fill="v76" w:color="v75" w:val="v79"></w:shd><w:pStyle w:val="v88"></w:pStyle><w:rStyle w:val="v74"></w:rStyle><w:spacing w:lineRule="v85" w:line="1084" w:before="1082" w:beforeLines="1083" w:val="1086"></w:spacing><w:szCs w:val="v81"></w:szCs><w:sz w:val="v80"></w:sz><w:color w:val="v66"></w:color><w:highlight w:val="v71"></w:highlight><w:i w:val="v72"></w:i><w:iCs></w:iCs><w:b w:val="v65"></w:b><w:rFonts w:hint="v70" w:hAnsi="v69" w:eastAsia="v68" w:ascii="v67"></w:rFonts></w:rPr><w:instrText>v64</w:instrText><w:t xml:space="preserve">v61</w:t><w:tab></w:tab><w:br w:type="v62"></w:br><w:t xml:space="preserve">v63</w:t></w:r></w:p>`,
	"section":    `<w:sectPr><w:docGrid w:linePitch="1001" w:type="v2"></w:docGrid><w:cols w:space="1000"></w:cols><w:pgMar w:gutter="1005" w:footer="1004" w:header="1006" w:right="1008" w:bottom="1003" w:left="1007" w:top="1009"></w:pgMar><w:pgSz w:h="1010" w:w="1011"></w:pgSz></w:sectPr>`,
	"table":      `<w:tbl><w:tblPr><w:tblLook w:noVBand="0" w:noHBand="1" w:lastColumn="1" w:firstColumn="1" w:lastRow="0" w:firstRow="0" w:val="v9"></w:tblLook><w:tblBorders><w:insideV w:color="v27" w:space="1029" w:sz="1028" w:val="v30"></w:insideV><w:insideH w:color="v23" w:space="1025" w:sz="1024" w:val="v26"></w:insideH><w:right w:color="v35" w:space="1037" w:sz="1036" w:val="v38"></w:right><w:bottom w:color="v19" w:space="1021" w:sz="1020" w:val="v22"></w:bottom><w:left w:color="v31" w:space="1033" w:sz="1032" w:val="v34"></w:left><w:top w:color="v39" w:space="1041" w:sz="1040" w:val="v42"></w:top></w:tblBorders><w:jc w:val="v2"></w:jc><w:tblW w:type="v43" w:w="1044"></w:tblW><w:tblStyle w:val="v18"></w:tblStyle><w:tblpPr w:tblpY="1015" w:tblpX="1013" w:tblpYSpec="v16" w:tblpXSpec="v14" w:horzAnchor="v10" w:vertAnchor="v17" w:rightFromText="1012" w:leftFromText="1011"></w:tblpPr></w:tblPr><w:tblGrid><w:gridCol w:w="1000"></w:gridCol><w:gridCol w:w="1001"></w:gridCol></w:tblGrid><w:tr><w:trPr><w:jc w:val="v117"></w:jc><w:trHeight w:val="1119" w:hRule="v118"></w:trHeight></w:trPr><w:tc><w:tcPr><w:vAlign w:val="v79"></w:vAlign><w:shd w:themeFillTint="v51" w:themeFill="v50" w:fill="v49" w:color="v48" w:val="v52"></w:shd><w:tcBorders><w:insideV w:color="v61" w:space="1063" w:sz="1062" w:val="v64"></w:insideV><w:insideH w:color="v57" w:space="1059" w:sz="1058" w:val="v60"></w:insideH><w:right w:color="v69" w:space="1071" w:sz="1070" w:val="v72"></w:right><w:bottom w:color="v53" w:space="1055" w:sz="1054" w:val="v56"></w:bottom><w:left w:color="v65" w:space="1067" w:sz="1066" w:val="v68"></w:left><w:top w:color="v73" w:space="1075" w:sz="1074" w:val="v76"></w:top></w:tcBorders><w:gridSpan w:val="1047"></w:gridSpan><w:vMerge w:val="v80"></w:vMerge><w:tcW w:type="v77" w:w="1078"></w:tcW></w:tcPr><w:p><w:r><w:t>v45</w:t></w:r></w:p><w:p><w:r><w:t>v46</w:t></w:r></w:p></w:tc><w:tc><w:tcPr><w:vAlign w:val="v115"></w:vAlign><w:shd w:themeFillTint="v87" w:themeFill="v86" w:fill="v85" w:color="v84" w:val="v88"></w:shd><w:tcBorders><w:insideV w:color="v97" w:space="1099" w:sz="1098" w:val="v100"></w:insideV><w:insideH w:color="v93" w:space="1095" w:sz="1094" w:val="v96"></w:insideH><w:right w:color="v105" w:space="1107" w:sz="1106" w:val="v108"></w:right><w:bottom w:color="v89" w:space="1091" w:sz="1090" w:val="v92"></w:bottom><w:left w:color="v101" w:space="1103" w:sz="1102" w:val="v104"></w:left><w:top w:color="v109" w:space="1111" w:sz="1110" w:val="v112"></w:top></w:tcBorders><w:gridSpan w:val="1083"></w:gridSpan><w:vMerge w:val="v116"></w:vMerge><w:tcW w:type="v113" w:w="1114"></w:tcW></w:tcPr><w:p><w:r><w:t>v81</w:t></w:r></w:p><w:p><w:r><w:t>v82</w:t></w:r></w:p></w:tc></w:tr><w:tr><w:trPr><w:jc w:val="v192"></w:jc><w:trHeight w:val="1194" w:hRule="v193"></w:trHeight></w:trPr><w:tc><w:tcPr><w:vAlign w:val="v154"></w:vAlign><w:shd w:themeFillTint="v126" w:themeFill="v125" w:fill="v124" w:color="v123" w:val="v127"></w:shd><w:tcBorders><w:insideV w:color="v136" w:space="1138" w:sz="1137" w:val="v139"></w:insideV><w:insideH w:color="v132" w:space="1134" w:sz="1133" w:val="v135"></w:insideH><w:right w:color="v144" w:space="1146" w:sz="1145" w:val="v147"></w:right><w:bottom w:color="v128" w:space="1130" w:sz="1129" w:val="v131"></w:bottom><w:left w:color="v140" w:space="1142" w:sz="1141" w:val="v143"></w:left><w:top w:color="v148" w:space="1150" w:sz="1149" w:val="v151"></w:top></w:tcBorders><w:gridSpan w:val="1122"></w:gridSpan><w:vMerge w:val="v155"></w:vMerge><w:tcW w:type="v152" w:w="1153"></w:tcW></w:tcPr><w:p><w:r><w:t>v120</w:t></w:r></w:p><w:p><w:r><w:t>v121</w:t></w:r></w:p></w:tc><w:tc><w:tcPr><w:vAlign w:val="v190"></w:vAlign><w:shd w:themeFillTint="v162" w:themeFill="v161" w:fill="v160" w:color="v159" w:val="v163"></w:shd><w:tcBorders><w:insideV w:color="v172" w:space="1174" w:sz="1173" w:val="v175"></w:insideV><w:insideH w:color="v168" w:space="1170" w:sz="1169" w:val="v171"></w:insideH><w:right w:color="v180" w:space="1182" w:sz="1181" w:val="v183"></w:right><w:bottom w:color="v164" w:space="1166" w:sz="1165" w:val="v167"></w:bottom><w:left w:color="v176" w:space="1178" w:sz="1177" w:val="v179"></w:left><w:top w:color="v184" w:space="1186" w:sz="1185" w:val="v187"></w:top></w:tcBorders><w:gridSpan w:val="1158"></w:gridSpan><w:vMerge w:val="v191"></w:vMerge><w:tcW w:type="v188" w:w="1189"></w:tcW></w:tcPr><w:p><w:r><w:t>v156</w:t></w:r></w:p><w:p><w:r><w:t>v157</w:t></w:r></w:p></w:tc></w:tr></w:tbl>`,
	"inline":     `<w:p><w:r><w:drawing><wp:inline distR="1003" distL="1002" distB="1001" distT="1004"><a:graphic xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main"></a:graphic><wp:cNvGraphicFramePr><a:graphicFrameLocks noChangeAspect="1000" xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main"></a:graphicFrameLocks></wp:cNvGraphicFramePr><wp:docPr name="v6" id="1005"></wp:docPr><wp:effectExtent b="1007" r="1009" t="1010" l="1008"></wp:effectExtent><wp:extent cy="1012" cx="1011"></wp:extent></wp:inline></w:drawing></w:r></w:p>`,
	"anchor":     `<w:p><w:r><w:drawing><wp:anchor allowOverlap="1000" layoutInCell="1015" locked="1016" behindDoc="1001" relativeHeight="1021" simplePos="1022" distR="1005" distL="1004" distB="1003" distT="1006"><a:graphic xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main"></a:graphic><wp:cNvGraphicFramePr><a:graphicFrameLocks noChangeAspect="1002" xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main"></a:graphicFrameLocks></wp:cNvGraphicFramePr><wp:docPr name="v8" id="1007"></wp:docPr><wp:wrapSquare wrapText="v25"></wp:wrapSquare><wp:wrapNone></wp:wrapNone><wp:effectExtent b="1009" r="1011" t="1012" l="1010"></wp:effectExtent><wp:extent cy="1014" cx="1013"></wp:extent><wp:positionV relativeFrom="v20"><wp:posOffset>1019</wp:posOffset></wp:positionV><wp:positionH relativeFrom="v18"><wp:posOffset>1017</wp:posOffset></wp:positionH><wp:simplePos y="1024" x="1023"></wp:simplePos></wp:anchor></w:drawing></w:r></w:p>`,
	"picture":    `<w:p><w:r><w:drawing><wp:inline distR="0" distL="0" distB="0" distT="0"><a:graphic><a:graphicData uri=""><pic:pic xmlns:pic="http://schemas.openxmlformats.org/drawingml/2006/picture"><pic:spPr><a:prstGeom prst="v6"><a:avLst></a:avLst></a:prstGeom><a:xfrm flipV="1014" flipH="1013" rot="1017"><a:chExt cy="1008" cx="1007"></a:chExt><a:chOff y="1010" x="1009"></a:chOff><a:ext cy="1012" cx="1011"></a:ext><a:off y="1016" x="1015"></a:off></a:xfrm></pic:spPr><pic:blipFill><a:stretch><a:fillRect></a:fillRect></a:stretch><a:blip cstate="v1" r:embed="v2"><a:alphaModFix amt="1000"></a:alphaModFix></a:blip></pic:blipFill><pic:nvPicPr><pic:cNvPicPr><a:picLocks noChangeAspect="1003"></a:picLocks></pic:cNvPicPr><pic:cNvPr name="v5" id="1004"></pic:cNvPr></pic:nvPicPr></pic:pic></a:graphicData></a:graphic></wp:inline></w:drawing></w:r></w:p>`,
	"shape":      `<w:p><w:r><w:drawing><wp:inline distR="0" distL="0" distB="0" distT="0"><a:graphic><a:graphicData uri=""><wps:wsp><wps:bodyPr upright="1007" anchorCtr="1001" anchor="v0" bIns="1002" rIns="1004" tIns="1006" lIns="1003" wrap="v9" vert="v8" rot="1005"><a:noAutofit></a:noAutofit></wps:bodyPr><wps:txbx><w:txbxContent><w:p><w:r><w:t>v52</w:t></w:r></w:p><w:p><w:r><w:t>v53</w:t></w:r></w:p></w:txbxContent></wps:txbx><wps:spPr bwMode="v14"><a:ln algn="v26" cmpd="v28" cap="v27" w="1038"><a:tailEnd len="v35" w="v37" type="v36"></a:tailEnd><a:headEnd len="v29" w="v31" type="v30"></a:headEnd><a:round></a:round><a:miter lim="v32"></a:miter><a:prstDash val="v33"></a:prstDash><a:solidFill><a:srgbClr val="v34"></a:srgbClr></a:solidFill><a:noFill></a:noFill></a:ln><a:noFill></a:noFill><a:blipFill rotWithShape="1019" dpi="1018"><a:tile algn="v20" flip="v21" sy="1023" sx="1022" ty="1025" tx="1024"></a:tile><a:srcRect></a:srcRect><a:blip cstate="v16" r:embed="v17"><a:alphaModFix amt="1015"></a:alphaModFix></a:blip></a:blipFill><a:solidFill><a:srgbClr val="v40"></a:srgbClr></a:solidFill><a:prstGeom prst="v39"><a:avLst></a:avLst></a:prstGeom><a:xfrm flipV="1048" flipH="1047" rot="1051"><a:chExt cy="1042" cx="1041"></a:chExt><a:chOff y="1044" x="1043"></a:chOff><a:ext cy="1046" cx="1045"></a:ext><a:off y="1050" x="1049"></a:off></a:xfrm></wps:spPr><wps:cNvSpPr txBox="1013"><a:spLocks noChangeArrowheads="1012"></a:spLocks></wps:cNvSpPr><wps:cNvCnPr><a:cxnSpLocks></a:cxnSpLocks></wps:cNvCnPr><wps:cNvPr name="v11" id="1010"></wps:cNvPr></wps:wsp></a:graphicData></a:graphic></wp:inline></w:drawing></w:r></w:p>`,
	"canvas":     `<w:p><w:r><w:drawing><wp:inline distR="0" distL="0" distB="0" distT="0"><a:graphic><a:graphicData uri=""><wpc:wpc><wpc:bg><a:noFill></a:noFill></wpc:bg><wpc:whole><a:ln algn="v6" cmpd="v8" cap="v7" w="1018"><a:tailEnd len="v15" w="v17" type="v16"></a:tailEnd><a:headEnd len="v9" w="v11" type="v10"></a:headEnd><a:round></a:round><a:miter lim="v12"></a:miter><a:prstDash val="v13"></a:prstDash><a:solidFill><a:srgbClr val="v14"></a:srgbClr></a:solidFill><a:noFill></a:noFill></a:ln></wpc:whole><pic:pic xmlns:pic="http://schemas.openxmlformats.org/drawingml/2006/picture"><pic:nvPicPr><pic:cNvPicPr></pic:cNvPicPr><pic:cNvPr name="v1" id="1000"></pic:cNvPr></pic:nvPicPr></pic:pic><wps:wsp><wps:cNvPr name="v3" id="1002"></wps:cNvPr></wps:wsp><wpg:wgp><pic:pic xmlns:pic="http://schemas.openxmlformats.org/drawingml/2006/picture"><pic:nvPicPr><pic:cNvPicPr></pic:cNvPicPr><pic:cNvPr name="v1" id="1000"></pic:cNvPr></pic:nvPicPr></pic:pic><wps:wsp><wps:cNvPr name="v3" id="1002"></wps:cNvPr></wps:wsp></wpg:wgp><pic:pic xmlns:pic="http://schemas.openxmlformats.org/drawingml/2006/picture"><pic:nvPicPr><pic:cNvPicPr></pic:cNvPicPr><pic:cNvPr name="v1" id="1000"></pic:cNvPr></pic:nvPicPr></pic:pic></wpc:wpc></a:graphicData></a:graphic></wp:inline></w:drawing></w:r></w:p>`,
	"group":      `<w:p><w:r><w:drawing><wp:inline distR="0" distL="0" distB="0" distT="0"><a:graphic><a:graphicData uri=""><wpg:wgp><wpg:cNvGrpSpPr><a:grpSpLocks></a:grpSpLocks></wpg:cNvGrpSpPr><wpg:grpSpPr bwMode="v6"><a:ln algn="v18" cmpd="v20" cap="v19" w="1030"><a:tailEnd len="v27" w="v29" type="v28"></a:tailEnd><a:headEnd len="v21" w="v23" type="v22"></a:headEnd><a:round></a:round><a:miter lim="v24"></a:miter><a:prstDash val="v25"></a:prstDash><a:solidFill><a:srgbClr val="v26"></a:srgbClr></a:solidFill><a:noFill></a:noFill></a:ln><a:noFill></a:noFill><a:blipFill rotWithShape="1011" dpi="1010"><a:tile algn="v12" flip="v13" sy="1015" sx="1014" ty="1017" tx="1016"></a:tile><a:srcRect></a:srcRect><a:blip cstate="v8" r:embed="v9"><a:alphaModFix amt="1007"></a:alphaModFix></a:blip></a:blipFill><a:solidFill><a:srgbClr val="v32"></a:srgbClr></a:solidFill><a:prstGeom prst="v31"><a:avLst></a:avLst></a:prstGeom><a:xfrm flipV="1040" flipH="1039" rot="1043"><a:chExt cy="1034" cx="1033"></a:chExt><a:chOff y="1036" x="1035"></a:chOff><a:ext cy="1038" cx="1037"></a:ext><a:off y="1042" x="1041"></a:off></a:xfrm></wpg:grpSpPr><pic:pic xmlns:pic="http://schemas.openxmlformats.org/drawingml/2006/picture"><pic:nvPicPr><pic:cNvPicPr></pic:cNvPicPr><pic:cNvPr name="v1" id="1000"></pic:cNvPr></pic:nvPicPr></pic:pic><wps:wsp><wps:cNvPr name="v3" id="1002"></wps:cNvPr></wps:wsp><wpc:wpc><wps:wsp><wps:cNvPr name="v3" id="1002"></wps:cNvPr></wps:wsp><pic:pic xmlns:pic="http://schemas.openxmlformats.org/drawingml/2006/picture"><pic:nvPicPr><pic:cNvPicPr></pic:cNvPicPr><pic:cNvPr name="v1" id="1000"></pic:cNvPr></pic:nvPicPr></pic:pic></wpc:wpc><wpg:grpSp><wpg:cNvPr name="v5" id="1004"></wpg:cNvPr><wps:wsp><wps:cNvPr name="v3" id="1002"></wps:cNvPr></wps:wsp><pic:pic xmlns:pic="http://schemas.openxmlformats.org/drawingml/2006/picture"><pic:nvPicPr><pic:cNvPicPr></pic:cNvPicPr><pic:cNvPr name="v1" id="1000"></pic:cNvPr></pic:nvPicPr></pic:pic><wpc:wpc><wps:wsp><wps:cNvPr name="v3" id="1002"></wps:cNvPr></wps:wsp><pic:pic xmlns:pic="http://schemas.openxmlformats.org/drawingml/2006/picture"><pic:nvPicPr><pic:cNvPicPr></pic:cNvPicPr><pic:cNvPr name="v1" id="1000"></pic:cNvPr></pic:nvPicPr></pic:pic></wpc:wpc></wpg:grpSp><wps:wsp><wps:cNvPr name="v3" id="1002"></wps:cNvPr></wps:wsp></wpg:wgp></a:graphicData></a:graphic></wp:inline></w:drawing></w:r></w:p>`,
	"groupshape": `<w:p><w:r><w:drawing><wp:inline distR="0" distL="0" distB="0" distT="0"><a:graphic><a:graphicData uri=""><wpg:wgp><wpg:grpSp><wpg:cNvPr name="v1" id="1000"></wpg:cNvPr><wpg:cNvGrpSpPr><a:grpSpLocks></a:grpSpLocks></wpg:cNvGrpSpPr><wpg:grpSpPr bwMode="v8"><a:ln algn="v20" cmpd="v22" cap="v21" w="1032"><a:tailEnd len="v29" w="v31" type="v30"></a:tailEnd><a:headEnd len="v23" w="v25" type="v24"></a:headEnd><a:round></a:round><a:miter lim="v26"></a:miter><a:prstDash val="v27"></a:prstDash><a:solidFill><a:srgbClr val="v28"></a:srgbClr></a:solidFill><a:noFill></a:noFill></a:ln><a:noFill></a:noFill><a:blipFill rotWithShape="1013" dpi="1012"><a:tile algn="v14" flip="v15" sy="1017" sx="1016" ty="1019" tx="1018"></a:tile><a:srcRect></a:srcRect><a:blip cstate="v10" r:embed="v11"><a:alphaModFix amt="1009"></a:alphaModFix></a:blip></a:blipFill><a:solidFill><a:srgbClr val="v34"></a:srgbClr></a:solidFill><a:prstGeom prst="v33"><a:avLst></a:avLst></a:prstGeom><a:xfrm flipV="1042" flipH="1041" rot="1045"><a:chExt cy="1036" cx="1035"></a:chExt><a:chOff y="1038" x="1037"></a:chOff><a:ext cy="1040" cx="1039"></a:ext><a:off y="1044" x="1043"></a:off></a:xfrm></wpg:grpSpPr><pic:pic xmlns:pic="http://schemas.openxmlformats.org/drawingml/2006/picture"><pic:nvPicPr><pic:cNvPicPr></pic:cNvPicPr><pic:cNvPr name="v3" id="1002"></pic:cNvPr></pic:nvPicPr></pic:pic><wps:wsp><wps:cNvPr name="v5" id="1004"></wps:cNvPr></wps:wsp><wpc:wpc><wps:wsp><wps:cNvPr name="v5" id="1004"></wps:cNvPr></wps:wsp><pic:pic xmlns:pic="http://schemas.openxmlformats.org/drawingml/2006/picture"><pic:nvPicPr><pic:cNvPicPr></pic:cNvPicPr><pic:cNvPr name="v3" id="1002"></pic:cNvPr></pic:nvPicPr></pic:pic></wpc:wpc><pic:pic xmlns:pic="http://schemas.openxmlformats.org/drawingml/2006/picture"><pic:nvPicPr><pic:cNvPicPr></pic:cNvPicPr><pic:cNvPr name="v3" id="1002"></pic:cNvPr></pic:nvPicPr></pic:pic></wpg:grpSp></wpg:wgp></a:graphicData></a:graphic></wp:inline></w:drawing></w:r></w:p>`,
}
