From 46dd61cabfba7c84069998db726983e6451d24be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 01/39] fix: let drawings added to a paragraph know their
 document

Paragraph.String, SplitByParagraph and AppendFile dereference the document
of a drawing, which was only set while parsing.
---
 apidrawing.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/apidrawing.go b/apidrawing.go
index e2e7c61..4d0b543 100644
--- a/apidrawing.go
+++ b/apidrawing.go
@@ -48,7 +48,9 @@ func (p *Paragraph) AddInlineDrawing(pic []byte) (*Run, error) {
 		w = A4_EMU_MAX_WIDTH / 2
 	}
 	d := &Drawing{
+		file: p.file,
 		Inline: &WPInline{
+			file: p.file,
 			// AnchorID: fmt.Sprintf("%08X", rand.Uint32()),
 			// EditID:   fmt.Sprintf("%08X", rand.Uint32()),
 
@@ -68,9 +70,11 @@ func (p *Paragraph) AddInlineDrawing(pic []byte) (*Run, error) {
 				},
 			},
 			Graphic: &AGraphic{
+				file: p.file,
 				XMLA: XMLNS_DRAWINGML_MAIN,
 				GraphicData: &AGraphicData{
-					URI: XMLNS_PICTURE,
+					file: p.file,
+					URI:  XMLNS_PICTURE,
 					Pic: &Picture{
 						XMLPIC: XMLNS_DRAWINGML_PICTURE,
 						NonVisualPicProperties: &PICNonVisualPicProperties{
@@ -106,6 +110,7 @@ func (p *Paragraph) AddInlineDrawing(pic []byte) (*Run, error) {
 	run := &Run{
 		RunProperties: &RunProperties{},
 		Children:      c,
+		file:          p.file,
 	}
 	p.Children = append(p.Children, run)
 	return run, nil
@@ -151,7 +156,9 @@ func (p *Paragraph) AddAnchorDrawing(pic []byte) (*Run, error) {
 		w = A4_EMU_MAX_WIDTH / 2
 	}
 	d := &Drawing{
+		file: p.file,
 		Anchor: &WPAnchor{
+			file:         p.file,
 			LayoutInCell: 1,
 			AllowOverlap: 1,
 
@@ -180,9 +187,11 @@ func (p *Paragraph) AddAnchorDrawing(pic []byte) (*Run, error) {
 				},
 			},
 			Graphic: &AGraphic{
+				file: p.file,
 				XMLA: XMLNS_DRAWINGML_MAIN,
 				GraphicData: &AGraphicData{
-					URI: XMLNS_PICTURE,
+					file: p.file,
+					URI:  XMLNS_PICTURE,
 					Pic: &Picture{
 						XMLPIC: XMLNS_DRAWINGML_PICTURE,
 						NonVisualPicProperties: &PICNonVisualPicProperties{
@@ -218,6 +227,7 @@ func (p *Paragraph) AddAnchorDrawing(pic []byte) (*Run, error) {
 	run := &Run{
 		RunProperties: &RunProperties{},
 		Children:      c,
+		file:          p.file,
 	}
 	p.Children = append(p.Children, run)
 	return run, nil
-- 
2.43.0


From 2c02c619045ae177bf578008ae74495f165e1152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 02/39] fix: MergeText must keep every text in its place

Texts following a non-text child were replaced with the last text of the run,
and runs separated by another element were joined, which moved their text
before that element.
---
 structtext.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/structtext.go b/structtext.go
index 5dc4796..70d632c 100644
--- a/structtext.go
+++ b/structtext.go
@@ -292,7 +292,7 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 							if noappend {
 								noappend = false
 							} else {
-								prevrun.Children = append(prevrun.Children, t)
+								prevrun.Children = append(prevrun.Children, prevtext)
 							}
 							prevtext = &Text{}
 						}
@@ -300,13 +300,14 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 					}
 				}
 				if prevtext.Text != "" && !noappend {
-					prevrun.Children = append(prevrun.Children, t)
+					prevrun.Children = append(prevrun.Children, prevtext)
 				}
 			} else {
 				prevrun = &r
 				np.Children = append(np.Children, &r)
 			}
 		default:
+			prevrun = nil // only contiguous runs may be merged
 			np.Children = append(np.Children, o)
 		}
 	}
-- 
2.43.0


From 54e943c59bcfffa2a4b60138ef11d7a5ab76eb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:48 +0000
Subject: [PATCH 03/39] fix: skip the content of leaf elements instead of
 expecting none

White space, comments or extension elements inside an otherwise empty element
(<w:tab> </w:tab>) made Parse fail.
---
 structdrawing.go |  6 +++---
 structeffects.go |  8 ++++----
 structrun.go     |  2 +-
 structsect.go    |  8 ++++----
 structshape.go   |  8 ++++----
 structtable.go   | 12 ++++++------
 structtext.go    |  9 +++++++--
 7 files changed, 29 insertions(+), 24 deletions(-)

diff --git a/structdrawing.go b/structdrawing.go
index 78e348e..52de695 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -365,7 +365,7 @@ func (r *WPExtent) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -397,7 +397,7 @@ func (r *WPEffectExtent) UnmarshalXML(d *xml.Decoder, start xml.StartElement) er
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -426,7 +426,7 @@ func (r *WPDocPr) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
+	err := d.Skip()
 	return err
 }
 
diff --git a/structeffects.go b/structeffects.go
index bfe85aa..b1c0c96 100644
--- a/structeffects.go
+++ b/structeffects.go
@@ -145,7 +145,7 @@ func (s *Shade) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
+	err := d.Skip()
 	return err
 }
 
@@ -273,7 +273,7 @@ func (r *NonVisualProperties) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return
 }
 
@@ -320,7 +320,7 @@ func (s *Spacing) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err erro
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return
 }
 
@@ -393,6 +393,6 @@ func (i *Ind) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error) {
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return
 }
diff --git a/structrun.go b/structrun.go
index 1c97952..4df3395 100644
--- a/structrun.go
+++ b/structrun.go
@@ -343,6 +343,6 @@ func (f *RunFonts) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
+	err := d.Skip()
 	return err
 }
diff --git a/structsect.go b/structsect.go
index cc66873..d8eb6a9 100644
--- a/structsect.go
+++ b/structsect.go
@@ -133,7 +133,7 @@ func (pgsz *PgSz) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -183,7 +183,7 @@ func (pgmar *PgMar) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -203,7 +203,7 @@ func (cols *Cols) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -225,6 +225,6 @@ func (dg *DocGrid) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
diff --git a/structshape.go b/structshape.go
index 9298006..af8601c 100644
--- a/structshape.go
+++ b/structshape.go
@@ -205,7 +205,7 @@ func (l *ASPLocks) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -318,7 +318,7 @@ func (t *ATile) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error)
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -495,7 +495,7 @@ func (r *AHeadEnd) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
+	err := d.Skip()
 	return err
 }
 
@@ -522,7 +522,7 @@ func (r *ATailEnd) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
+	err := d.Skip()
 	return err
 }
 
diff --git a/structtable.go b/structtable.go
index 5a2727c..f300b38 100644
--- a/structtable.go
+++ b/structtable.go
@@ -233,7 +233,7 @@ func (tp *WTablePositioningProperties) UnmarshalXML(d *xml.Decoder, start xml.St
 	}
 
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -257,7 +257,7 @@ func (t *WTableStyle) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -287,7 +287,7 @@ func (t *WTableWidth) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -329,7 +329,7 @@ func (t *WTableLook) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
+	err := d.Skip()
 	return err
 }
 
@@ -394,7 +394,7 @@ func (g *WGridCol) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -807,7 +807,7 @@ func (t *WTableBorder) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
+	err := d.Skip()
 	return err
 }
 
diff --git a/structtext.go b/structtext.go
index 70d632c..4fa5017 100644
--- a/structtext.go
+++ b/structtext.go
@@ -52,6 +52,11 @@ func (tb *Tabs) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 					return err
 				}
 				tb.Tabs = append(tb.Tabs, &value)
+				continue
+			}
+			err = d.Skip() // skip unsupported tags
+			if err != nil {
+				return err
 			}
 		}
 	}
@@ -84,7 +89,7 @@ func (t *Tab) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -103,7 +108,7 @@ func (f *BarterRabbet) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
+	err := d.Skip()
 	return err
 }
 
-- 
2.43.0


From f1e8a459ee7498b9faf17fcbdfb357f028dfc400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:37 +0000
Subject: [PATCH 04/39] fix: do not panic on drawings without graphic or with
 missing media

String, SplitByParagraph and AppendFile dereferenced optional parts of a
parsed drawing, and the media of relationships that do not refer to any.
---
 media.go         | 15 +++++++++++++++
 structdrawing.go | 41 +++++++++++++++++++++++------------------
 2 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/media.go b/media.go
index 01acb24..e3b13ca 100644
--- a/media.go
+++ b/media.go
@@ -20,6 +20,8 @@
 
 package docx
 
+import "strings"
+
 //nolint:revive,stylecheck
 const MEDIA_FOLDER = `word/media/`
 
@@ -43,6 +45,19 @@ func (f *Docx) Media(name string) *Media {
 	return &f.media[i]
 }
 
+// referMedia finds the media that the relationship id refers to
+func (f *Docx) referMedia(id string) (m *Media, target string, err error) {
+	target, err = f.ReferTarget(id)
+	if err != nil {
+		return
+	}
+	m = f.Media(strings.TrimPrefix(strings.TrimPrefix(target, "/word/"), "media/"))
+	if m == nil {
+		err = ErrRefTargetNotFound
+	}
+	return
+}
+
 // addMedia append the media to docx's media list
 func (f *Docx) addMedia(m Media) {
 	f.mediaNameIdx[m.Name] = len(f.media)
diff --git a/structdrawing.go b/structdrawing.go
index 52de695..2ac016d 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -228,6 +228,9 @@ func (r *WPInline) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 // String ...
 func (r *WPInline) String() string {
 	sb := strings.Builder{}
+	if r.Graphic == nil || r.Graphic.GraphicData == nil {
+		return "![inln?](unknown)"
+	}
 	if r.Graphic.GraphicData.Pic != nil {
 		sb.WriteString("![inlnim ")
 		switch {
@@ -235,16 +238,16 @@ func (r *WPInline) String() string {
 			sb.WriteString(r.DocPr.Name)
 		case r.Graphic.GraphicData.Pic.NonVisualPicProperties != nil:
 			sb.WriteString(r.Graphic.GraphicData.Pic.NonVisualPicProperties.NonVisualDrawingProperties.Name)
-		default:
+		case r.Graphic.GraphicData.Pic.BlipFill != nil:
 			sb.WriteString(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 		}
 		sb.WriteString("](")
 		if r.Graphic.GraphicData.Pic.BlipFill != nil {
-			tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
+			m, _, err := r.file.referMedia(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 			if err != nil {
 				sb.WriteString(err.Error())
 			} else {
-				h := md5.Sum(r.file.Media(tgt[6:]).Data)
+				h := md5.Sum(m.Data)
 				sb.WriteString(hex.EncodeToString(h[:]))
 			}
 		}
@@ -284,9 +287,12 @@ func (r *WPInline) String() string {
 }
 
 func (r *WPInline) copymedia(to *Docx) *WPInline {
+	if r.Graphic == nil || r.Graphic.GraphicData == nil { // no media
+		return r
+	}
 	if r.Graphic.GraphicData.Pic != nil {
 		if r.Graphic.GraphicData.Pic.BlipFill != nil {
-			tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
+			m, tgt, err := r.file.referMedia(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 			if err != nil {
 				return nil
 			}
@@ -294,10 +300,6 @@ func (r *WPInline) copymedia(to *Docx) *WPInline {
 			idn := int(atomic.AddUintptr(&to.docID, 1))
 			id := int(to.IncreaseID("图片"))
 			ids := strconv.Itoa(id)
-			m := r.file.Media(tgt[6:])
-			if m == nil {
-				return nil
-			}
 			rid := to.addImage(format, m.Data)
 			inln := *r
 			grph := *r.Graphic
@@ -319,7 +321,9 @@ func (r *WPInline) copymedia(to *Docx) *WPInline {
 					ID:   id,
 					Name: "图片 " + ids,
 				},
-				CNvPicPr: r.Graphic.GraphicData.Pic.NonVisualPicProperties.CNvPicPr,
+			}
+			if r.Graphic.GraphicData.Pic.NonVisualPicProperties != nil {
+				pic.NonVisualPicProperties.CNvPicPr = r.Graphic.GraphicData.Pic.NonVisualPicProperties.CNvPicPr
 			}
 			pic.BlipFill = &PICBlipFill{
 				Blip: ABlip{
@@ -1324,16 +1328,16 @@ func (r *WPAnchor) String() string {
 				sb.WriteString(r.DocPr.Name)
 			case r.Graphic.GraphicData.Pic.NonVisualPicProperties != nil:
 				sb.WriteString(r.Graphic.GraphicData.Pic.NonVisualPicProperties.NonVisualDrawingProperties.Name)
-			default:
+			case r.Graphic.GraphicData.Pic.BlipFill != nil:
 				sb.WriteString(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 			}
 			sb.WriteString("](")
 			if r.Graphic.GraphicData.Pic.BlipFill != nil {
-				tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
+				m, _, err := r.file.referMedia(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 				if err != nil {
 					sb.WriteString(err.Error())
 				} else {
-					h := md5.Sum(r.file.Media(tgt[6:]).Data)
+					h := md5.Sum(m.Data)
 					sb.WriteString(hex.EncodeToString(h[:]))
 				}
 			}
@@ -1374,9 +1378,12 @@ func (r *WPAnchor) String() string {
 }
 
 func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
+	if r.Graphic == nil || r.Graphic.GraphicData == nil { // no media
+		return r
+	}
 	if r.Graphic.GraphicData.Pic != nil {
 		if r.Graphic.GraphicData.Pic.BlipFill != nil {
-			tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
+			m, tgt, err := r.file.referMedia(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 			if err != nil {
 				return nil
 			}
@@ -1384,10 +1391,6 @@ func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
 			idn := int(atomic.AddUintptr(&to.docID, 1))
 			id := int(to.IncreaseID("图片"))
 			ids := strconv.Itoa(id)
-			m := r.file.Media(tgt[6:])
-			if m == nil {
-				return nil
-			}
 			rid := to.addImage(format, m.Data)
 			anch := *r
 			grph := *r.Graphic
@@ -1409,7 +1412,9 @@ func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
 					ID:   id,
 					Name: "图片 " + ids,
 				},
-				CNvPicPr: r.Graphic.GraphicData.Pic.NonVisualPicProperties.CNvPicPr,
+			}
+			if r.Graphic.GraphicData.Pic.NonVisualPicProperties != nil {
+				pic.NonVisualPicProperties.CNvPicPr = r.Graphic.GraphicData.Pic.NonVisualPicProperties.CNvPicPr
 			}
 			pic.BlipFill = &PICBlipFill{
 				Blip: ABlip{
-- 
2.43.0


From a089dd23d21768a7737eb9c439b0a11e1555b614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:38 +0000
Subject: [PATCH 05/39] fix: keep groups and picture transparency when copying
 drawings

AppendFile and SplitByParagraph dropped every group and the alphaModFix of
pictures.
---
 structdrawing.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/structdrawing.go b/structdrawing.go
index 2ac016d..c9cc0ac 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -325,13 +325,9 @@ func (r *WPInline) copymedia(to *Docx) *WPInline {
 			if r.Graphic.GraphicData.Pic.NonVisualPicProperties != nil {
 				pic.NonVisualPicProperties.CNvPicPr = r.Graphic.GraphicData.Pic.NonVisualPicProperties.CNvPicPr
 			}
-			pic.BlipFill = &PICBlipFill{
-				Blip: ABlip{
-					Embed:  rid,
-					Cstate: r.Graphic.GraphicData.Pic.BlipFill.Blip.Cstate,
-				},
-				Stretch: r.Graphic.GraphicData.Pic.BlipFill.Stretch,
-			}
+			blipfill := *r.Graphic.GraphicData.Pic.BlipFill
+			blipfill.Blip.Embed = rid
+			pic.BlipFill = &blipfill
 			return &inln
 		}
 		return nil
@@ -342,6 +338,9 @@ func (r *WPInline) copymedia(to *Docx) *WPInline {
 	if r.Graphic.GraphicData.Canvas != nil { //TODO: copy canvas media
 		return r
 	}
+	if r.Graphic.GraphicData.Group != nil { //TODO: copy group media
+		return r
+	}
 	return nil
 }
 
@@ -1416,13 +1415,9 @@ func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
 			if r.Graphic.GraphicData.Pic.NonVisualPicProperties != nil {
 				pic.NonVisualPicProperties.CNvPicPr = r.Graphic.GraphicData.Pic.NonVisualPicProperties.CNvPicPr
 			}
-			pic.BlipFill = &PICBlipFill{
-				Blip: ABlip{
-					Embed:  rid,
-					Cstate: r.Graphic.GraphicData.Pic.BlipFill.Blip.Cstate,
-				},
-				Stretch: r.Graphic.GraphicData.Pic.BlipFill.Stretch,
-			}
+			blipfill := *r.Graphic.GraphicData.Pic.BlipFill
+			blipfill.Blip.Embed = rid
+			pic.BlipFill = &blipfill
 			return &anch
 		}
 		return nil
@@ -1433,6 +1428,9 @@ func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
 	if r.Graphic.GraphicData.Canvas != nil { //TODO: copy canvas media
 		return r
 	}
+	if r.Graphic.GraphicData.Group != nil { //TODO: copy group media
+		return r
+	}
 	return nil
 }
 
-- 
2.43.0


From aad1581967064fa613014fbfa6a2855cea65cd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:38 +0000
Subject: [PATCH 06/39] fix: keep all character data of a text

A comment or CDATA section inside <w:t> splits the character data, of which
only the last piece was kept.
---
 structtext.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/structtext.go b/structtext.go
index 4fa5017..8ee4ee6 100644
--- a/structtext.go
+++ b/structtext.go
@@ -140,8 +140,14 @@ func (r *Text) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			return err
 		}
 
-		if tt, ok := t.(xml.CharData); ok {
-			r.Text = string(tt) // implicitly copy
+		switch tt := t.(type) {
+		case xml.CharData:
+			r.Text += string(tt) // implicitly copy
+		case xml.StartElement:
+			err = d.Skip() // skip unsupported tags
+			if err != nil {
+				return err
+			}
 		}
 	}
 
-- 
2.43.0


From 59706577195bc84186b2bf809f0c43d191d0f0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:39 +0000
Subject: [PATCH 07/39] fix: tolerate white space and comments in
 AlternateContent

They made the run skip its remaining content.
---
 structrun.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/structrun.go b/structrun.go
index 4df3395..c681e66 100644
--- a/structrun.go
+++ b/structrun.go
@@ -151,14 +151,19 @@ func (r *Run) parse(d *xml.Decoder, tt xml.StartElement) (child interface{}, err
 				for _, attr := range ttt.Attr {
 					if attr.Name.Local == "Requires" {
 						if attr.Value == "wps" || attr.Value == "wpc" || attr.Value == "wpg" {
-							tok, err = d.Token() // go into choice
-							if err != nil {
-								return nil, err
+							for { // go into choice
+								tok, err = d.Token()
+								if err != nil {
+									return nil, err
+								}
+								if ttt, ok := tok.(xml.StartElement); ok {
+									child, err = r.parse(d, ttt)
+									break altcont
+								}
+								if _, ok := tok.(xml.EndElement); ok { // empty choice
+									continue altcont
+								}
 							}
-							if ttt, ok := tok.(xml.StartElement); ok {
-								child, err = r.parse(d, ttt)
-							}
-							break altcont
 						}
 						break
 					}
@@ -169,6 +174,9 @@ func (r *Run) parse(d *xml.Decoder, tt xml.StartElement) (child interface{}, err
 					break
 				}
 			}
+			if _, ok := tok.(xml.StartElement); !ok {
+				continue
+			}
 			err = d.Skip() // skip unsupported tags
 			if err != nil {
 				return nil, err
-- 
2.43.0


From f2a963101b51b7e9a60b0fbb624edf73ebad74ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:40 +0000
Subject: [PATCH 08/39] fix: write the relationships in their namespace

A package without document relationships, or with prefixed ones, was saved
with relationships in no or in another namespace.
---
 unpack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpack.go b/unpack.go
index 8b7f8a9..08a4c8c 100644
--- a/unpack.go
+++ b/unpack.go
@@ -43,6 +43,7 @@ func unpack(zipReader *zip.Reader) (docx *Docx, err error) {
 	docx.slowIDs = make(map[string]uintptr, 64)
 	docx.tmplfs = zipReader
 	docx.tmpfslst = make([]string, 0, 64)
+	docx.docRelation.Xmlns = XMLNS_REL
 	for _, f := range zipReader.File {
 		if f.Name == "word/_rels/document.xml.rels" {
 			err = docx.parseDocRelation(f)
@@ -109,7 +110,6 @@ func (f *Docx) parseDocRelation(file *zip.File) error {
 	}
 	defer zf.Close()
 
-	f.docRelation.Xmlns = XMLNS_R
 	err = xml.NewDecoder(zf).Decode(&f.docRelation)
 	if err != nil {
 		return err
-- 
2.43.0


From 7a917e119f5440f60116c9f259de3b0c4a1d58a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:41 +0000
Subject: [PATCH 09/39] fix: ignore directory entries of the package

They cannot be copied as files, so such documents could not be saved.
---
 unpack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unpack.go b/unpack.go
index 08a4c8c..dc9ae72 100644
--- a/unpack.go
+++ b/unpack.go
@@ -45,6 +45,9 @@ func unpack(zipReader *zip.Reader) (docx *Docx, err error) {
 	docx.tmpfslst = make([]string, 0, 64)
 	docx.docRelation.Xmlns = XMLNS_REL
 	for _, f := range zipReader.File {
+		if strings.HasSuffix(f.Name, "/") { // directory entry
+			continue
+		}
 		if f.Name == "word/_rels/document.xml.rels" {
 			err = docx.parseDocRelation(f)
 			if err != nil {
-- 
2.43.0


From abc844b3cd52181025de729b862ef2103a69c42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:41 +0000
Subject: [PATCH 10/39] fix: report failures of closing the package

The central directory is written on close, so WriteTo reported success for
truncated files.
---
 docx.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/docx.go b/docx.go
index c7753f4..c642706 100644
--- a/docx.go
+++ b/docx.go
@@ -151,9 +151,13 @@ func LoadBodyItems(items []interface{}, media []Media) *Docx {
 // WriteTo allows to save a docx to a writer
 func (f *Docx) WriteTo(writer io.Writer) (_ int64, err error) {
 	zipWriter := zip.NewWriter(writer)
-	defer zipWriter.Close()
 
-	return 0, f.pack(zipWriter)
+	err = f.pack(zipWriter)
+	cerr := zipWriter.Close()
+	if err == nil {
+		err = cerr
+	}
+	return 0, err
 }
 
 // Read is a fake function and cannot be used
-- 
2.43.0


From 6a21d39a2370023b5bffbc73e27cecd4f4e32da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:42 +0000
Subject: [PATCH 11/39] fix: never reuse the name of an existing image

Image numbers restart for every parsed document, so adding a picture to a
reopened document replaced a picture added before.
---
 image.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/image.go b/image.go
index 93183c2..0a6845e 100644
--- a/image.go
+++ b/image.go
@@ -27,7 +27,10 @@ import (
 
 // addImage add image to docx and return its rId
 func (f *Docx) addImage(format string, data []byte) string {
-	m := Media{Name: "image" + strconv.Itoa(int(atomic.AddUintptr(&f.imageID, 1))) + "." + format, Data: data}
+	m := Media{Data: data}
+	for m.Name == "" || f.Media(m.Name) != nil { // never reuse a name
+		m.Name = "image" + strconv.Itoa(int(atomic.AddUintptr(&f.imageID, 1))) + "." + format
+	}
 	f.addMedia(m)
 	return f.addImageRelation(m)
 }
-- 
2.43.0


From ec6be4779cda090a6633bb24b8efc1f965667e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:43 +0000
Subject: [PATCH 12/39] fix: reject numbers out of range

GetInt and GetInt64 returned arbitrary values for NaN, infinities and large
numbers.
---
 helper.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/helper.go b/helper.go
index d91ad81..c3bdc97 100644
--- a/helper.go
+++ b/helper.go
@@ -21,7 +21,9 @@
 package docx
 
 import (
+	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"unsafe"
 )
@@ -41,6 +43,8 @@ func StringToBytes(s string) (b []byte) {
 	return b
 }
 
+var errNumRange = errors.New("number out of range")
+
 // GetInt64 from string
 func GetInt64(s string) (int64, error) {
 	v, err := strconv.ParseInt(s, 10, 64)
@@ -49,7 +53,10 @@ func GetInt64(s string) (int64, error) {
 	}
 	v2, err := strconv.ParseFloat(s, 64)
 	if err == nil {
-		return int64(v2), nil
+		if v2 >= -1<<63 && v2 < 1<<63 {
+			return int64(v2), nil
+		}
+		return 0, errNumRange
 	}
 	_, err = fmt.Sscanf(s, "%d", &v)
 	return v, err
@@ -63,7 +70,10 @@ func GetInt(s string) (int, error) {
 	}
 	v2, err := strconv.ParseFloat(s, 64)
 	if err == nil {
-		return int(v2), nil
+		if v2 >= math.MinInt && v2 < -float64(math.MinInt) {
+			return int(v2), nil
+		}
+		return 0, errNumRange
 	}
 	_, err = fmt.Sscanf(s, "%d", &v)
 	return v, err
-- 
2.43.0


From 3dd6abb067928425d5e3cd961f152756a6ce1d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:43 +0000
Subject: [PATCH 13/39] fix: report pictures without width or height

They made AddInlineDrawing and AddAnchorDrawing divide by zero.
---
 apidrawing.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/apidrawing.go b/apidrawing.go
index 4d0b543..581b037 100644
--- a/apidrawing.go
+++ b/apidrawing.go
@@ -22,6 +22,7 @@ package docx
 
 import (
 	"bytes"
+	"errors"
 	"os"
 	"strconv"
 	"sync/atomic"
@@ -29,12 +30,17 @@ import (
 	"github.com/fumiama/imgsz"
 )
 
+var errEmptyPicture = errors.New("picture without width or height")
+
 // AddInlineDrawing adds inline drawing to paragraph
 func (p *Paragraph) AddInlineDrawing(pic []byte) (*Run, error) {
 	sz, format, err := imgsz.DecodeSize(bytes.NewReader(pic))
 	if err != nil {
 		return nil, err
 	}
+	if sz.Width <= 0 || sz.Height <= 0 {
+		return nil, errEmptyPicture
+	}
 	idn := int(atomic.AddUintptr(&p.file.docID, 1))
 	id := int(p.file.IncreaseID("图片"))
 	ids := strconv.Itoa(id)
@@ -143,6 +149,9 @@ func (p *Paragraph) AddAnchorDrawing(pic []byte) (*Run, error) {
 	if err != nil {
 		return nil, err
 	}
+	if sz.Width <= 0 || sz.Height <= 0 {
+		return nil, errEmptyPicture
+	}
 	idn := int(atomic.AddUintptr(&p.file.docID, 1))
 	id := int(p.file.IncreaseID("图片"))
 	ids := strconv.Itoa(id)
-- 
2.43.0


From 71be6e44a2ec1eab5350af71fb1677e9fdd3e6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:44 +0000
Subject: [PATCH 14/39] fix: let parsed hyperlinks know their document

A drawing in a hyperlink made String, SplitByParagraph and AppendFile panic.
---
 structpara.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/structpara.go b/structpara.go
index 8b5d31e..bb9546b 100644
--- a/structpara.go
+++ b/structpara.go
@@ -256,6 +256,7 @@ func (p *Paragraph) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 			switch tt.Name.Local {
 			case "hyperlink":
 				var value Hyperlink
+				value.Run.file = p.file
 				err = d.DecodeElement(&value, &tt)
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
-- 
2.43.0


From db8867de2a12f1b56def04509cb688e4ab46085e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:45 +0000
Subject: [PATCH 15/39] fix: read all forms of the table look flags

They may be written as true and false, and an empty one made Parse panic.
---
 structtable.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/structtable.go b/structtable.go
index f300b38..5f5aed9 100644
--- a/structtable.go
+++ b/structtable.go
@@ -291,6 +291,15 @@ func (t *WTableWidth) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err
 	return err
 }
 
+// onOff is the number of an on/off attribute value
+func onOff(v string) int {
+	switch v {
+	case "1", "true", "on":
+		return 1
+	}
+	return 0
+}
+
 // WTableLook represents the look of a table in a Word document.
 type WTableLook struct {
 	XMLName  xml.Name `xml:"w:tblLook,omitempty"`
@@ -313,17 +322,17 @@ func (t *WTableLook) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error
 		case "val":
 			t.Val = attr.Value
 		case "firstRow":
-			t.FirstRow = int(attr.Value[0] - '0')
+			t.FirstRow = onOff(attr.Value)
 		case "lastRow":
-			t.LastRow = int(attr.Value[0] - '0')
+			t.LastRow = onOff(attr.Value)
 		case "firstColumn":
-			t.FirstCol = int(attr.Value[0] - '0')
+			t.FirstCol = onOff(attr.Value)
 		case "lastColumn":
-			t.LastCol = int(attr.Value[0] - '0')
+			t.LastCol = onOff(attr.Value)
 		case "noHBand":
-			t.NoHBand = int(attr.Value[0] - '0')
+			t.NoHBand = onOff(attr.Value)
 		case "noVBand":
-			t.NoVBand = int(attr.Value[0] - '0')
+			t.NoVBand = onOff(attr.Value)
 		default:
 			// ignore other attributes
 		}
-- 
2.43.0


From bd17ef72f6734afd4a3dbd2f4ed7614830f6a530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:45 +0000
Subject: [PATCH 16/39] fix: keep the value of bold and italic

<w:b w:val="0"/> switches bold off but was saved as <w:b/>.
---
 structeffects.go | 2 ++
 structrun.go     | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/structeffects.go b/structeffects.go
index b1c0c96..a15f30f 100644
--- a/structeffects.go
+++ b/structeffects.go
@@ -60,11 +60,13 @@ type SizeCs struct {
 // Bold ...
 type Bold struct {
 	XMLName xml.Name `xml:"w:b,omitempty"`
+	Val     string   `xml:"w:val,attr,omitempty"`
 }
 
 // Italic ...
 type Italic struct {
 	XMLName xml.Name `xml:"w:i,omitempty"`
+	Val     string   `xml:"w:val,attr,omitempty"`
 }
 
 // Underline ...
diff --git a/structrun.go b/structrun.go
index c681e66..be7687a 100644
--- a/structrun.go
+++ b/structrun.go
@@ -248,11 +248,11 @@ func (r *RunProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 				}
 				r.Fonts = &value
 			case "b":
-				r.Bold = &Bold{}
+				r.Bold = &Bold{Val: getAtt(tt.Attr, "val")}
 			case "iCs":
 				r.ICs = &struct{}{}
 			case "i":
-				r.Italic = &Italic{}
+				r.Italic = &Italic{Val: getAtt(tt.Attr, "val")}
 			case "u":
 				var value Underline
 				value.Val = getAtt(tt.Attr, "val")
-- 
2.43.0


From 3547ca742e86013db5513673b659d463a27f2a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:46 +0000
Subject: [PATCH 17/39] fix: accept any relationship id

Ids are arbitrary, documents of some producers could not be opened. Numbers
out of range made the generated ids wrap around.
---
 unpack.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/unpack.go b/unpack.go
index dc9ae72..25595d8 100644
--- a/unpack.go
+++ b/unpack.go
@@ -23,7 +23,6 @@ package docx
 import (
 	"archive/zip"
 	"encoding/xml"
-	"errors"
 	"io"
 	"strconv"
 	"strings"
@@ -119,11 +118,11 @@ func (f *Docx) parseDocRelation(file *zip.File) error {
 	}
 	for _, r := range f.docRelation.Relationship {
 		if !strings.HasPrefix(r.ID, "rId") {
-			return errors.New("invalid rel ID: " + r.ID)
+			continue // cannot collide with a generated ID
 		}
-		id, err := strconv.ParseUint(r.ID[3:], 10, 64)
+		id, err := strconv.ParseUint(r.ID[3:], 10, 31)
 		if err != nil {
-			return err
+			continue
 		}
 		if f.rID < uintptr(id) {
 			f.rID = uintptr(id)
-- 
2.43.0


From ee383680c9d066e4882cff5ea1ba6a534067bfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:47 +0000
Subject: [PATCH 18/39] fix: setters work on parsed elements without properties

They dereferenced the missing properties.
---
 apirun.go   | 30 +++++++++++++++++++-----------
 apitable.go |  9 +++++++++
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/apirun.go b/apirun.go
index f5d2b83..f09f293 100644
--- a/apirun.go
+++ b/apirun.go
@@ -20,9 +20,17 @@
 
 package docx
 
+// properties of the run, which a parsed one may lack
+func (r *Run) properties() *RunProperties {
+	if r.RunProperties == nil {
+		r.RunProperties = &RunProperties{}
+	}
+	return r.RunProperties
+}
+
 // Color allows to set run color
 func (r *Run) Color(color string) *Run {
-	r.RunProperties.Color = &Color{
+	r.properties().Color = &Color{
 		Val: color,
 	}
 	return r
@@ -30,7 +38,7 @@ func (r *Run) Color(color string) *Run {
 
 // Size allows to set run size
 func (r *Run) Size(size string) *Run {
-	r.RunProperties.Size = &Size{
+	r.properties().Size = &Size{
 		Val: size,
 	}
 	return r
@@ -38,7 +46,7 @@ func (r *Run) Size(size string) *Run {
 
 // SizeCs allows to set run sizecs
 func (r *Run) SizeCs(size string) *Run {
-	r.RunProperties.SizeCs = &SizeCs{
+	r.properties().SizeCs = &SizeCs{
 		Val: size,
 	}
 	return r
@@ -46,7 +54,7 @@ func (r *Run) SizeCs(size string) *Run {
 
 // Shade allows to set run shade
 func (r *Run) Shade(val, color, fill string) *Run {
-	r.RunProperties.Shade = &Shade{
+	r.properties().Shade = &Shade{
 		Val:   val,
 		Color: color,
 		Fill:  fill,
@@ -56,7 +64,7 @@ func (r *Run) Shade(val, color, fill string) *Run {
 
 // Spacing allows to set run spacing
 func (r *Run) Spacing(line int) *Run {
-	r.RunProperties.Spacing = &Spacing{
+	r.properties().Spacing = &Spacing{
 		Line: line,
 	}
 	return r
@@ -64,13 +72,13 @@ func (r *Run) Spacing(line int) *Run {
 
 // Bold ...
 func (r *Run) Bold() *Run {
-	r.RunProperties.Bold = &Bold{}
+	r.properties().Bold = &Bold{}
 	return r
 }
 
 // Italic ...
 func (r *Run) Italic() *Run {
-	r.RunProperties.Italic = &Italic{}
+	r.properties().Italic = &Italic{}
 	return r
 }
 
@@ -89,13 +97,13 @@ func (r *Run) Italic() *Run {
 //	dashLong: Specifies a long dash underline.
 //	wavyDouble: Specifies a double wavy underline.
 func (r *Run) Underline(val string) *Run {
-	r.RunProperties.Underline = &Underline{Val: val}
+	r.properties().Underline = &Underline{Val: val}
 	return r
 }
 
 // Highlight ...
 func (r *Run) Highlight(val string) *Run {
-	r.RunProperties.Highlight = &Highlight{Val: val}
+	r.properties().Highlight = &Highlight{Val: val}
 	return r
 }
 
@@ -105,7 +113,7 @@ func (r *Run) Strike(val bool) *Run {
 	if val {
 		trueFalseStr = "true"
 	}
-	r.RunProperties.Strike = &Strike{Val: trueFalseStr}
+	r.properties().Strike = &Strike{Val: trueFalseStr}
 	return r
 }
 
@@ -117,7 +125,7 @@ func (r *Run) AddTab() *Run {
 
 // Font sets the font of the run
 func (r *Run) Font(ascii, eastAsia, hansi, hint string) *Run {
-	r.RunProperties.Fonts = &RunFonts{
+	r.properties().Fonts = &RunFonts{
 		ASCII:    ascii,
 		EastAsia: eastAsia,
 		HAnsi:    hansi,
diff --git a/apitable.go b/apitable.go
index afe1ed1..4e4c321 100644
--- a/apitable.go
+++ b/apitable.go
@@ -166,6 +166,9 @@ func (f *Docx) AddTableTwips(
 //		both：两端对齐。
 //		distribute：分散对齐。
 func (t *Table) Justification(val string) *Table {
+	if t.TableProperties == nil {
+		t.TableProperties = &WTableProperties{}
+	}
 	if t.TableProperties.Justification == nil {
 		t.TableProperties.Justification = &Justification{Val: val}
 		return t
@@ -183,6 +186,9 @@ func (t *Table) Justification(val string) *Table {
 //		both：两端对齐。
 //		distribute：分散对齐。
 func (w *WTableRow) Justification(val string) *WTableRow {
+	if w.TableRowProperties == nil {
+		w.TableRowProperties = &WTableRowProperties{}
+	}
 	if w.TableRowProperties.Justification == nil {
 		w.TableRowProperties.Justification = &Justification{Val: val}
 		return w
@@ -193,6 +199,9 @@ func (w *WTableRow) Justification(val string) *WTableRow {
 
 // Shade allows to set cell's shade
 func (c *WTableCell) Shade(val, color, fill string) *WTableCell {
+	if c.TableCellProperties == nil {
+		c.TableCellProperties = &WTableCellProperties{}
+	}
 	c.TableCellProperties.Shade = &Shade{
 		Val:   val,
 		Color: color,
-- 
2.43.0


From 9eeca2092b8042a4de8b0cd75bbcb55048e04ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:15 +0000
Subject: [PATCH 19/39] fix: mark white space at the ends of texts as preserved

Word strips it otherwise. AddText did not mark it, MergeText lost the mark.
---
 apitext.go    | 8 +++++---
 structtext.go | 6 ++++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/apitext.go b/apitext.go
index 6e3b879..0eb2888 100644
--- a/apitext.go
+++ b/apitext.go
@@ -52,9 +52,11 @@ func (p *Paragraph) AddText(text string) *Run {
 				c = append(c, &Tab{})
 			}
 			if k != "" {
-				c = append(c, &Text{
-					Text: k,
-				})
+				t := &Text{Text: k}
+				if strings.TrimSpace(k) != k {
+					t.XMLSpace = "preserve"
+				}
+				c = append(c, t)
 			}
 		}
 	}
diff --git a/structtext.go b/structtext.go
index 8ee4ee6..16d5120 100644
--- a/structtext.go
+++ b/structtext.go
@@ -266,6 +266,9 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 				case *Text:
 					if x.Text != "" {
 						t.Text += x.Text
+						if x.XMLSpace != "" {
+							t.XMLSpace = x.XMLSpace
+						}
 					}
 				default:
 					if t.Text != "" {
@@ -297,6 +300,9 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 					case *Text:
 						if x.Text != "" {
 							prevtext.Text += x.Text
+							if x.XMLSpace != "" {
+								prevtext.XMLSpace = x.XMLSpace
+							}
 						}
 					default:
 						if prevtext.Text != "" {
-- 
2.43.0


From 0d7f3843dcfdaa64498d855516d35c5ed599231e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:00 +0000
Subject: [PATCH 20/39] fix: keep the adjust list of preset shape geometries

It was dropped when parsing, but is kept for pictures.
---
 structeffects.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/structeffects.go b/structeffects.go
index a15f30f..e33f3ac 100644
--- a/structeffects.go
+++ b/structeffects.go
@@ -217,7 +217,10 @@ func (w *ShapeProperties) UnmarshalXML(d *xml.Decoder, start xml.StartElement) e
 					return err
 				}
 			case "prstGeom":
-				w.PrstGeom.Prst = getAtt(tt.Attr, "prst")
+				err = d.DecodeElement(&w.PrstGeom, &tt)
+				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
+					return err
+				}
 			case "solidFill":
 				var value ASolidFill
 				err = d.DecodeElement(&value, &tt)
-- 
2.43.0


From 141b2a5b643375ec0b22af3f69029dad3e68aff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:06 +0000
Subject: [PATCH 21/39] fix: parse the numbering of paragraphs

It was written but not read, so lists lost it when a document was reopened.
---
 structpara.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/structpara.go b/structpara.go
index bb9546b..6ab708d 100644
--- a/structpara.go
+++ b/structpara.go
@@ -73,6 +73,13 @@ func (p *ParagraphProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 					return err
 				}
 				p.Spacing = &value
+			case "numPr":
+				var value NumProperties
+				err = d.DecodeElement(&value, &tt)
+				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
+					return err
+				}
+				p.NumProperties = &value
 			case "ind":
 				var value Ind
 				err = d.DecodeElement(&value, &tt)
-- 
2.43.0


From a76703eeb03b14922ac23465545de975342fb711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:47 +0000
Subject: [PATCH 22/39] fix: report the number of bytes written by WriteTo

---
 docx.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/docx.go b/docx.go
index c642706..24d0f7e 100644
--- a/docx.go
+++ b/docx.go
@@ -149,15 +149,28 @@ func LoadBodyItems(items []interface{}, media []Media) *Docx {
 }
 
 // WriteTo allows to save a docx to a writer
-func (f *Docx) WriteTo(writer io.Writer) (_ int64, err error) {
-	zipWriter := zip.NewWriter(writer)
+func (f *Docx) WriteTo(writer io.Writer) (n int64, err error) {
+	cw := &countWriter{w: writer}
+	zipWriter := zip.NewWriter(cw)
 
 	err = f.pack(zipWriter)
 	cerr := zipWriter.Close()
 	if err == nil {
 		err = cerr
 	}
-	return 0, err
+	return cw.n, err
+}
+
+// countWriter counts the bytes written to w
+type countWriter struct {
+	w io.Writer
+	n int64
+}
+
+func (c *countWriter) Write(p []byte) (n int, err error) {
+	n, err = c.w.Write(p)
+	c.n += int64(n)
+	return
 }
 
 // Read is a fake function and cannot be used
-- 
2.43.0


From ae0f34b45ce7d1e82efc9db96692f4b56e14b204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:00 +0000
Subject: [PATCH 23/39] fix: never reuse the id of an existing relationship

---
 link.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/link.go b/link.go
index 46718f8..850431d 100644
--- a/link.go
+++ b/link.go
@@ -33,12 +33,22 @@ var (
 	ErrRefTargetNotFound = errors.New("ref target not found")
 )
 
+// newRelationID gives an ID that no relationship has yet
+func (f *Docx) newRelationID() string {
+	for {
+		id := "rId" + strconv.Itoa(int(atomic.AddUintptr(&f.rID, 1)))
+		if _, err := f.ReferTarget(id); err != nil {
+			return id
+		}
+	}
+}
+
 // when adding an hyperlink we need to store a reference in the relationship field
 //
 //	this func is not thread-safe
 func (f *Docx) addLinkRelation(link string) string {
 	rel := Relationship{
-		ID:         "rId" + strconv.Itoa(int(atomic.AddUintptr(&f.rID, 1))),
+		ID:         f.newRelationID(),
 		Type:       REL_HYPERLINK,
 		Target:     link,
 		TargetMode: REL_TARGETMODE,
@@ -54,7 +64,7 @@ func (f *Docx) addLinkRelation(link string) string {
 //	this func is not thread-safe
 func (f *Docx) addImageRelation(m Media) string {
 	rel := Relationship{
-		ID:     "rId" + strconv.Itoa(int(atomic.AddUintptr(&f.rID, 1))),
+		ID:     f.newRelationID(),
 		Type:   REL_IMAGE,
 		Target: "media/" + m.Name,
 	}
-- 
2.43.0


From e330cd608b69b074fd294cb413a3b65f1b7e27bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:48 +0000
Subject: [PATCH 24/39] fix: MergeText must keep field codes

---
 structtext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structtext.go b/structtext.go
index 16d5120..5d81c72 100644
--- a/structtext.go
+++ b/structtext.go
@@ -281,7 +281,7 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 			if t.Text != "" {
 				r.Children = append(r.Children, t)
 			}
-			if prevrun != nil && canmerge(prevrun, &r) {
+			if prevrun != nil && r.InstrText == "" && canmerge(prevrun, &r) { // InstrText must stay before its Children
 				var prevtext *Text
 				noappend := false
 				if len(prevrun.Children) == 0 {
-- 
2.43.0


From d6abbf81170c64a1fef6bdff2832a3aed355b24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:40 +0000
Subject: [PATCH 25/39] fix: copy media and links in shapes, canvases and
 groups

---
 structdoc.go     |   7 ++-
 structdrawing.go | 131 +++++++++++++++++++++++++++++++++++++++++------
 2 files changed, 118 insertions(+), 20 deletions(-)

diff --git a/structdoc.go b/structdoc.go
index 4265fa4..c675e87 100644
--- a/structdoc.go
+++ b/structdoc.go
@@ -315,11 +315,10 @@ func (p *Paragraph) copymedia(to *Docx) (np Paragraph) {
 			continue
 		}
 		if h, ok := pc.(*Hyperlink); ok {
-			tgt, err := p.file.ReferTarget(h.ID)
-			if err != nil {
-				continue
+			rid := h.ID // an anchor
+			if tgt, err := p.file.ReferTarget(h.ID); err == nil {
+				rid = to.addLinkRelation(tgt)
 			}
-			rid := to.addLinkRelation(tgt)
 			np.Children = append(np.Children, &Hyperlink{
 				ID:  rid,
 				Run: *h.Run.copymedia(to),
diff --git a/structdrawing.go b/structdrawing.go
index c9cc0ac..1034108 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -332,14 +332,19 @@ func (r *WPInline) copymedia(to *Docx) *WPInline {
 		}
 		return nil
 	}
-	if r.Graphic.GraphicData.Shape != nil { // shape has no media
-		return r
-	}
-	if r.Graphic.GraphicData.Canvas != nil { //TODO: copy canvas media
-		return r
-	}
-	if r.Graphic.GraphicData.Group != nil { //TODO: copy group media
-		return r
+	if gd := r.Graphic.GraphicData.copymedia(r.file, to); gd != nil {
+		inln := *r
+		grph := *r.Graphic
+		inln.Graphic = &grph
+		grph.GraphicData = gd
+		grph.file = to
+		inln.file = to
+		if r.DocPr != nil {
+			docpr := *r.DocPr
+			docpr.ID = int(atomic.AddUintptr(&to.docID, 1))
+			inln.DocPr = &docpr
+		}
+		return &inln
 	}
 	return nil
 }
@@ -610,6 +615,95 @@ func (a *AGraphicData) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 	return nil
 }
 
+// copymedia copies the shape, canvas or group with all media and links in it
+func (a *AGraphicData) copymedia(from, to *Docx) *AGraphicData {
+	na := *a
+	na.file = to
+	switch {
+	case a.Shape != nil:
+		na.Shape = a.Shape.copymedia(to)
+	case a.Canvas != nil:
+		na.Canvas = a.Canvas.copymedia(from, to)
+	case a.Group != nil:
+		na.Group = a.Group.copymedia(from, to)
+	default:
+		return nil
+	}
+	return &na
+}
+
+// copymediaitems copies the items of a canvas or group
+func copymediaitems(items []interface{}, from, to *Docx) []interface{} {
+	if items == nil {
+		return nil
+	}
+	nitems := make([]interface{}, 0, len(items))
+	for _, item := range items {
+		switch o := item.(type) {
+		case *Picture:
+			nitems = append(nitems, o.copymedia(from, to))
+		case *WordprocessingShape:
+			nitems = append(nitems, o.copymedia(to))
+		case *WordprocessingCanvas:
+			nitems = append(nitems, o.copymedia(from, to))
+		case *WordprocessingGroup:
+			nitems = append(nitems, o.copymedia(from, to))
+		case *WPGGroupShape:
+			ng := *o
+			ng.Elems = copymediaitems(o.Elems, from, to)
+			ng.file = to
+			nitems = append(nitems, &ng)
+		default:
+			nitems = append(nitems, item)
+		}
+	}
+	return nitems
+}
+
+func (p *Picture) copymedia(from, to *Docx) *Picture {
+	if p.BlipFill == nil {
+		return p
+	}
+	np := *p
+	blipfill := *p.BlipFill
+	np.BlipFill = &blipfill
+	blipfill.Blip.Embed = ""
+	if m, tgt, err := from.referMedia(p.BlipFill.Blip.Embed); err == nil {
+		blipfill.Blip.Embed = to.addImage(tgt[strings.LastIndex(tgt, ".")+1:], m.Data)
+	}
+	return &np
+}
+
+func (w *WordprocessingShape) copymedia(to *Docx) *WordprocessingShape {
+	nw := *w
+	nw.file = to
+	if w.TextBox == nil || w.TextBox.Content == nil {
+		return &nw
+	}
+	txbx, cont := *w.TextBox, *w.TextBox.Content
+	nw.TextBox, txbx.Content = &txbx, &cont
+	txbx.file, cont.file = to, to
+	cont.Paragraphs = make([]Paragraph, 0, len(w.TextBox.Content.Paragraphs))
+	for i := range w.TextBox.Content.Paragraphs {
+		cont.Paragraphs = append(cont.Paragraphs, w.TextBox.Content.Paragraphs[i].copymedia(to))
+	}
+	return &nw
+}
+
+func (c *WordprocessingCanvas) copymedia(from, to *Docx) *WordprocessingCanvas {
+	nc := *c
+	nc.Items = copymediaitems(c.Items, from, to)
+	nc.file = to
+	return &nc
+}
+
+func (w *WordprocessingGroup) copymedia(from, to *Docx) *WordprocessingGroup {
+	nw := *w
+	nw.Elems = copymediaitems(w.Elems, from, to)
+	nw.file = to
+	return &nw
+}
+
 // Picture represents a picture in a Word document.
 type Picture struct {
 	XMLName                xml.Name `xml:"pic:pic,omitempty"`
@@ -1422,14 +1516,19 @@ func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
 		}
 		return nil
 	}
-	if r.Graphic.GraphicData.Shape != nil { // shape has no media
-		return r
-	}
-	if r.Graphic.GraphicData.Canvas != nil { //TODO: copy canvas media
-		return r
-	}
-	if r.Graphic.GraphicData.Group != nil { //TODO: copy group media
-		return r
+	if gd := r.Graphic.GraphicData.copymedia(r.file, to); gd != nil {
+		anch := *r
+		grph := *r.Graphic
+		anch.Graphic = &grph
+		grph.GraphicData = gd
+		grph.file = to
+		anch.file = to
+		if r.DocPr != nil {
+			docpr := *r.DocPr
+			docpr.ID = int(atomic.AddUintptr(&to.docID, 1))
+			anch.DocPr = &docpr
+		}
+		return &anch
 	}
 	return nil
 }
-- 
2.43.0


From aa5bdafb228e5d82e6d70c20ac64a0305783b4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:41 +0000
Subject: [PATCH 26/39] fix: never reuse the id of an existing drawing

---
 id.go            | 9 +++++++++
 structdrawing.go | 2 ++
 unpack.go        | 1 -
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/id.go b/id.go
index 31b6157..2f22ca8 100644
--- a/id.go
+++ b/id.go
@@ -20,6 +20,8 @@
 
 package docx
 
+import "math"
+
 // IncreaseID by name
 func (f *Docx) IncreaseID(name string) (n uintptr) {
 	f.slowIDsMu.Lock()
@@ -29,3 +31,10 @@ func (f *Docx) IncreaseID(name string) (n uintptr) {
 	f.slowIDsMu.Unlock()
 	return
 }
+
+// useDocID notes that the drawing id is in use
+func (f *Docx) useDocID(id int) {
+	if f != nil && id < math.MaxInt32 && id > int(f.docID) {
+		f.docID = uintptr(id)
+	}
+}
diff --git a/structdrawing.go b/structdrawing.go
index 1034108..bfb3823 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -198,6 +198,7 @@ func (r *WPInline) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
+				r.file.useDocID(r.DocPr.ID)
 			case "cNvGraphicFramePr":
 				var value WPCNvGraphicFramePr
 				err = d.DecodeElement(&value, &tt)
@@ -1385,6 +1386,7 @@ func (r *WPAnchor) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
+				r.file.useDocID(r.DocPr.ID)
 			case "cNvGraphicFramePr":
 				r.CNvGraphicFramePr = new(WPCNvGraphicFramePr)
 				err = d.DecodeElement(r.CNvGraphicFramePr, &tt)
diff --git a/unpack.go b/unpack.go
index 25595d8..51fdc50 100644
--- a/unpack.go
+++ b/unpack.go
@@ -98,7 +98,6 @@ func (f *Docx) parseDocument(file *zip.File) error {
 	f.Document.XMLName.Local = "document"
 
 	f.Document.Body.file = f
-	//TODO: find last docID
 	f.docID = 100000
 	err = xml.NewDecoder(zf).Decode(&f.Document)
 	return err
-- 
2.43.0


From 915cd937d3013e552bfb54ccaa828837c8381c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:43 +0000
Subject: [PATCH 27/39] fix: report numbers out of range

Numbers beyond the range of a float were read as their leading digits, and
integers just below the range as the smallest integer.
---
 helper.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/helper.go b/helper.go
index c3bdc97..d261b9a 100644
--- a/helper.go
+++ b/helper.go
@@ -51,6 +51,9 @@ func GetInt64(s string) (int64, error) {
 	if err == nil {
 		return v, nil
 	}
+	if errors.Is(err, strconv.ErrRange) {
+		return 0, errNumRange
+	}
 	v2, err := strconv.ParseFloat(s, 64)
 	if err == nil {
 		if v2 >= -1<<63 && v2 < 1<<63 {
@@ -58,6 +61,9 @@ func GetInt64(s string) (int64, error) {
 		}
 		return 0, errNumRange
 	}
+	if errors.Is(err, strconv.ErrRange) {
+		return 0, errNumRange
+	}
 	_, err = fmt.Sscanf(s, "%d", &v)
 	return v, err
 }
@@ -68,6 +74,9 @@ func GetInt(s string) (int, error) {
 	if err == nil {
 		return v, nil
 	}
+	if errors.Is(err, strconv.ErrRange) {
+		return 0, errNumRange
+	}
 	v2, err := strconv.ParseFloat(s, 64)
 	if err == nil {
 		if v2 >= math.MinInt && v2 < -float64(math.MinInt) {
@@ -75,6 +84,9 @@ func GetInt(s string) (int, error) {
 		}
 		return 0, errNumRange
 	}
+	if errors.Is(err, strconv.ErrRange) {
+		return 0, errNumRange
+	}
 	_, err = fmt.Sscanf(s, "%d", &v)
 	return v, err
 }
-- 
2.43.0


From add1bb054ac3b1a8a0aeedacb119630faab827c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:30 +0000
Subject: [PATCH 28/39] fix: look for an unused drawing id, whatever ids the
 document has

---
 apidrawing.go    |  5 ++---
 apishape.go      |  5 ++---
 docx.go          |  1 +
 id.go            | 20 +++++++++++++++++---
 structdrawing.go |  9 ++++-----
 5 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/apidrawing.go b/apidrawing.go
index 581b037..f2c92c6 100644
--- a/apidrawing.go
+++ b/apidrawing.go
@@ -25,7 +25,6 @@ import (
 	"errors"
 	"os"
 	"strconv"
-	"sync/atomic"
 
 	"github.com/fumiama/imgsz"
 )
@@ -41,7 +40,7 @@ func (p *Paragraph) AddInlineDrawing(pic []byte) (*Run, error) {
 	if sz.Width <= 0 || sz.Height <= 0 {
 		return nil, errEmptyPicture
 	}
-	idn := int(atomic.AddUintptr(&p.file.docID, 1))
+	idn := p.file.nextDocID()
 	id := int(p.file.IncreaseID("图片"))
 	ids := strconv.Itoa(id)
 	rid := p.file.addImage(format, pic)
@@ -152,7 +151,7 @@ func (p *Paragraph) AddAnchorDrawing(pic []byte) (*Run, error) {
 	if sz.Width <= 0 || sz.Height <= 0 {
 		return nil, errEmptyPicture
 	}
-	idn := int(atomic.AddUintptr(&p.file.docID, 1))
+	idn := p.file.nextDocID()
 	id := int(p.file.IncreaseID("图片"))
 	ids := strconv.Itoa(id)
 	rid := p.file.addImage(format, pic)
diff --git a/apishape.go b/apishape.go
index 4ca918a..c0586a1 100644
--- a/apishape.go
+++ b/apishape.go
@@ -22,12 +22,11 @@ package docx
 
 import (
 	"strconv"
-	"sync/atomic"
 )
 
 // AddInlineShape adds wsp named drawing to paragraph
 func (p *Paragraph) AddInlineShape(w, h int64, name, bwMode, prst string, ln *ALine) *Run {
-	idn := int(atomic.AddUintptr(&p.file.docID, 1))
+	idn := p.file.nextDocID()
 	id := strconv.Itoa(int(p.file.IncreaseID(name)))
 	d := &Drawing{
 		Inline: &WPInline{
@@ -84,7 +83,7 @@ func (p *Paragraph) AddInlineShape(w, h int64, name, bwMode, prst string, ln *AL
 
 // AddAnchorShape adds wsp named drawing to paragraph
 func (p *Paragraph) AddAnchorShape(w, h int64, name, bwMode, prst string, ln *ALine) *Run {
-	idn := int(atomic.AddUintptr(&p.file.docID, 1))
+	idn := p.file.nextDocID()
 	id := strconv.Itoa(int(p.file.IncreaseID(name)))
 	d := &Drawing{
 		Anchor: &WPAnchor{
diff --git a/docx.go b/docx.go
index 24d0f7e..59a9087 100644
--- a/docx.go
+++ b/docx.go
@@ -44,6 +44,7 @@ type Docx struct {
 	rID       uintptr
 	imageID   uintptr
 	docID     uintptr
+	docIDs    map[int]struct{} // drawing ids in use
 	slowIDs   map[string]uintptr
 	slowIDsMu sync.Mutex
 
diff --git a/id.go b/id.go
index 2f22ca8..b962805 100644
--- a/id.go
+++ b/id.go
@@ -20,7 +20,7 @@
 
 package docx
 
-import "math"
+import "sync/atomic"
 
 // IncreaseID by name
 func (f *Docx) IncreaseID(name string) (n uintptr) {
@@ -34,7 +34,21 @@ func (f *Docx) IncreaseID(name string) (n uintptr) {
 
 // useDocID notes that the drawing id is in use
 func (f *Docx) useDocID(id int) {
-	if f != nil && id < math.MaxInt32 && id > int(f.docID) {
-		f.docID = uintptr(id)
+	if f == nil {
+		return
+	}
+	if f.docIDs == nil {
+		f.docIDs = make(map[int]struct{}, 64)
+	}
+	f.docIDs[id] = struct{}{}
+}
+
+// nextDocID returns a drawing id that is not in use
+func (f *Docx) nextDocID() int {
+	for {
+		id := int(atomic.AddUintptr(&f.docID, 1))
+		if _, ok := f.docIDs[id]; !ok {
+			return id
+		}
 	}
 }
diff --git a/structdrawing.go b/structdrawing.go
index bfb3823..13e5b4a 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -27,7 +27,6 @@ import (
 	"io"
 	"strconv"
 	"strings"
-	"sync/atomic"
 )
 
 //nolint:revive,stylecheck
@@ -298,7 +297,7 @@ func (r *WPInline) copymedia(to *Docx) *WPInline {
 				return nil
 			}
 			format := tgt[strings.LastIndex(tgt, ".")+1:]
-			idn := int(atomic.AddUintptr(&to.docID, 1))
+			idn := to.nextDocID()
 			id := int(to.IncreaseID("图片"))
 			ids := strconv.Itoa(id)
 			rid := to.addImage(format, m.Data)
@@ -342,7 +341,7 @@ func (r *WPInline) copymedia(to *Docx) *WPInline {
 		inln.file = to
 		if r.DocPr != nil {
 			docpr := *r.DocPr
-			docpr.ID = int(atomic.AddUintptr(&to.docID, 1))
+			docpr.ID = to.nextDocID()
 			inln.DocPr = &docpr
 		}
 		return &inln
@@ -1483,7 +1482,7 @@ func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
 				return nil
 			}
 			format := tgt[strings.LastIndex(tgt, ".")+1:]
-			idn := int(atomic.AddUintptr(&to.docID, 1))
+			idn := to.nextDocID()
 			id := int(to.IncreaseID("图片"))
 			ids := strconv.Itoa(id)
 			rid := to.addImage(format, m.Data)
@@ -1527,7 +1526,7 @@ func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
 		anch.file = to
 		if r.DocPr != nil {
 			docpr := *r.DocPr
-			docpr.ID = int(atomic.AddUintptr(&to.docID, 1))
+			docpr.ID = to.nextDocID()
 			anch.DocPr = &docpr
 		}
 		return &anch
-- 
2.43.0


From e58125daf412ae956574c57b41c716f24fb6f9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:09 +0000
Subject: [PATCH 29/39] fix: do not write to the slices given to LoadBodyItems

---
 docx.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/docx.go b/docx.go
index 59a9087..e2dd229 100644
--- a/docx.go
+++ b/docx.go
@@ -114,7 +114,8 @@ func LoadBodyItems(items []interface{}, media []Media) *Docx {
 			XMLWPS: XMLNS_WPS,
 			XMLWPC: XMLNS_WPC,
 			XMLWPG: XMLNS_WPG,
-			Body:   Body{Items: items},
+			// later additions must not show up in the caller's slices
+			Body: Body{Items: items[:len(items):len(items)]},
 		},
 		docRelation: Relationships{
 			Xmlns: XMLNS_REL,
@@ -136,7 +137,7 @@ func LoadBodyItems(items []interface{}, media []Media) *Docx {
 				},
 			},
 		},
-		media:        media,
+		media:        media[:len(media):len(media)],
 		mediaNameIdx: make(map[string]int, 64),
 		rID:          3,
 		slowIDs:      make(map[string]uintptr, 64),
-- 
2.43.0


From 20a0f3f02ca0b883cf602cbae733cb0424cb3bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:26 +0000
Subject: [PATCH 30/39] fix: keep clear of the ids of the items given to
 LoadBodyItems

---
 docx.go |  1 +
 id.go   | 84 ++++++++++++++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 84 insertions(+), 1 deletion(-)

diff --git a/docx.go b/docx.go
index e2dd229..90e1bc2 100644
--- a/docx.go
+++ b/docx.go
@@ -147,6 +147,7 @@ func LoadBodyItems(items []interface{}, media []Media) *Docx {
 		doc.mediaNameIdx[m.Name] = i
 	}
 	doc.slowIDs["图片"] = uintptr(len(media) + 1)
+	doc.useItemIDs(items)
 	return doc
 }
 
diff --git a/id.go b/id.go
index b962805..84aa338 100644
--- a/id.go
+++ b/id.go
@@ -20,7 +20,11 @@
 
 package docx
 
-import "sync/atomic"
+import (
+	"strconv"
+	"strings"
+	"sync/atomic"
+)
 
 // IncreaseID by name
 func (f *Docx) IncreaseID(name string) (n uintptr) {
@@ -52,3 +56,81 @@ func (f *Docx) nextDocID() int {
 		}
 	}
 }
+
+// useRelationID notes that the relationship id is in use
+func (f *Docx) useRelationID(rid string) {
+	if !strings.HasPrefix(rid, "rId") {
+		return // cannot collide with a generated ID
+	}
+	id, err := strconv.ParseUint(rid[3:], 10, 31)
+	if err == nil && f.rID < uintptr(id) {
+		f.rID = uintptr(id)
+	}
+}
+
+// useItemIDs notes the drawing and relationship ids in the items
+func (f *Docx) useItemIDs(items []interface{}) {
+	for _, item := range items {
+		switch o := item.(type) {
+		case *Paragraph:
+			f.useItemIDs(o.Children)
+		case *Table:
+			for _, tr := range o.TableRows {
+				for _, tc := range tr.TableCells {
+					for _, p := range tc.Paragraphs {
+						f.useItemIDs(p.Children)
+					}
+				}
+			}
+		case *Hyperlink:
+			f.useRelationID(o.ID)
+			f.useItemIDs(o.Run.Children)
+		case *Run:
+			f.useItemIDs(o.Children)
+		case *Drawing:
+			if o.Inline != nil {
+				f.useDrawingIDs(o.Inline.DocPr, o.Inline.Graphic)
+			}
+			if o.Anchor != nil {
+				f.useDrawingIDs(o.Anchor.DocPr, o.Anchor.Graphic)
+			}
+		case *Picture:
+			if o.BlipFill != nil {
+				f.useRelationID(o.BlipFill.Blip.Embed)
+			}
+		case *WordprocessingShape:
+			if o.TextBox != nil && o.TextBox.Content != nil {
+				for _, p := range o.TextBox.Content.Paragraphs {
+					f.useItemIDs(p.Children)
+				}
+			}
+		case *WordprocessingCanvas:
+			f.useItemIDs(o.Items)
+		case *WordprocessingGroup:
+			f.useItemIDs(o.Elems)
+		case *WPGGroupShape:
+			f.useItemIDs(o.Elems)
+		}
+	}
+}
+
+func (f *Docx) useDrawingIDs(pr *WPDocPr, g *AGraphic) {
+	if pr != nil {
+		f.useDocID(pr.ID)
+	}
+	if g == nil || g.GraphicData == nil {
+		return
+	}
+	if g.GraphicData.Pic != nil {
+		f.useItemIDs([]interface{}{g.GraphicData.Pic})
+	}
+	if g.GraphicData.Shape != nil {
+		f.useItemIDs([]interface{}{g.GraphicData.Shape})
+	}
+	if g.GraphicData.Canvas != nil {
+		f.useItemIDs(g.GraphicData.Canvas.Items)
+	}
+	if g.GraphicData.Group != nil {
+		f.useItemIDs(g.GraphicData.Group.Elems)
+	}
+}
-- 
2.43.0


From ce021e15d9d57054e16586b8da500f3944002238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:30 +0000
Subject: [PATCH 31/39] fix: show the text of hyperlinks of other programs

---
 structpara.go | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/structpara.go b/structpara.go
index 6ab708d..b96ff32 100644
--- a/structpara.go
+++ b/structpara.go
@@ -199,6 +199,7 @@ func (p *Paragraph) String() string {
 			link, err := p.file.ReferTarget(id)
 			sb.WriteString("[")
 			sb.WriteString(text)
+			o.Run.writeText(&sb)
 			sb.WriteString("](")
 			if err != nil {
 				sb.WriteString(id)
@@ -207,25 +208,7 @@ func (p *Paragraph) String() string {
 			}
 			sb.WriteByte(')')
 		case *Run:
-			for _, c := range o.Children {
-				switch x := c.(type) {
-				case *Text:
-					sb.WriteString(x.Text)
-				case *Tab:
-					sb.WriteByte('\t')
-				case *BarterRabbet:
-					sb.WriteByte('\n')
-				case *Drawing:
-					if x.Inline != nil {
-						sb.WriteString(x.Inline.String())
-						continue
-					}
-					if x.Anchor != nil {
-						sb.WriteString(x.Anchor.String())
-						continue
-					}
-				}
-			}
+			o.writeText(&sb)
 		default:
 			continue
 		}
@@ -233,6 +216,29 @@ func (p *Paragraph) String() string {
 	return sb.String()
 }
 
+// writeText writes the plain text of the run
+func (r *Run) writeText(sb *strings.Builder) {
+	for _, c := range r.Children {
+		switch x := c.(type) {
+		case *Text:
+			sb.WriteString(x.Text)
+		case *Tab:
+			sb.WriteByte('\t')
+		case *BarterRabbet:
+			sb.WriteByte('\n')
+		case *Drawing:
+			if x.Inline != nil {
+				sb.WriteString(x.Inline.String())
+				continue
+			}
+			if x.Anchor != nil {
+				sb.WriteString(x.Anchor.String())
+				continue
+			}
+		}
+	}
+}
+
 // UnmarshalXML ...
 func (p *Paragraph) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 	/*for _, attr := range start.Attr {
-- 
2.43.0


From 33c5f6b1612f53a4238e4135a935e1ff2298594e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:31 +0000
Subject: [PATCH 32/39] fix: show every paragraph of a table cell

---
 structtable.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/structtable.go b/structtable.go
index 5f5aed9..9809816 100644
--- a/structtable.go
+++ b/structtable.go
@@ -48,10 +48,15 @@ func (t *Table) String() string {
 	for _, r := range t.TableRows {
 		sb.WriteString("\n|")
 		for _, c := range r.TableCells {
-			if len(c.Paragraphs) > 0 && len(c.Paragraphs[0].Children) > 0 {
-				sb.WriteByte(' ')
-				sb.WriteString(c.Paragraphs[0].String())
-			} else {
+			empty := true
+			for _, p := range c.Paragraphs {
+				if len(p.Children) > 0 {
+					sb.WriteByte(' ')
+					sb.WriteString(p.String())
+					empty = false
+				}
+			}
+			if empty {
 				sb.WriteString("       ")
 			}
 			sb.WriteString(" |")
-- 
2.43.0


From e7122299c9f4bf887accdad57909f9d1225f4497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:25 +0000
Subject: [PATCH 33/39] fix: keep the namespace of pictures in groups

---
 structgroup.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structgroup.go b/structgroup.go
index 725515d..e44a753 100644
--- a/structgroup.go
+++ b/structgroup.go
@@ -69,6 +69,7 @@ func (w *WordprocessingGroup) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
+				value.XMLPIC = getAtt(tt.Attr, "pic")
 				w.Elems = append(w.Elems, &value)
 			case "wsp":
 				var value WordprocessingShape
@@ -199,6 +200,7 @@ func (w *WPGGroupShape) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
+				value.XMLPIC = getAtt(tt.Attr, "pic")
 				w.Elems = append(w.Elems, &value)
 			case "wsp":
 				var value WordprocessingShape
-- 
2.43.0


From 726c65e0ec749e5f58c76d241f3a9733cc399a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:25 +0000
Subject: [PATCH 34/39] fix: read the type of a cell width without value

---
 structtable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structtable.go b/structtable.go
index 9809816..b8a6ada 100644
--- a/structtable.go
+++ b/structtable.go
@@ -620,6 +620,7 @@ func (r *WTableCellProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement)
 			switch tt.Name.Local {
 			case "tcW":
 				r.TableCellWidth = new(WTableCellWidth)
+				r.TableCellWidth.Type = getAtt(tt.Attr, "type")
 				v := getAtt(tt.Attr, "w")
 				if v == "" {
 					continue
@@ -628,7 +629,6 @@ func (r *WTableCellProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement)
 				if err != nil {
 					return err
 				}
-				r.TableCellWidth.Type = getAtt(tt.Attr, "type")
 			case "vMerge":
 				r.VMerge = &WvMerge{Val: getAtt(tt.Attr, "val")}
 			case "gridSpan":
-- 
2.43.0


From 165c628cb9efab751fcf6f4c595e34d03d16509e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:26 +0000
Subject: [PATCH 35/39] fix: read the name of a picture without id

---
 structdrawing.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structdrawing.go b/structdrawing.go
index 13e5b4a..2143f4c 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -780,6 +780,7 @@ func (p *PICNonVisualPicProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElem
 		if tt, ok := t.(xml.StartElement); ok {
 			switch tt.Name.Local {
 			case "cNvPr":
+				p.NonVisualDrawingProperties.Name = getAtt(tt.Attr, "name")
 				v := getAtt(tt.Attr, "id")
 				if v == "" {
 					continue
@@ -788,7 +789,6 @@ func (p *PICNonVisualPicProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElem
 				if err != nil {
 					return err
 				}
-				p.NonVisualDrawingProperties.Name = getAtt(tt.Attr, "name")
 			case "cNvPicPr":
 				err = d.DecodeElement(&p.CNvPicPr, &tt)
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
-- 
2.43.0


From 13517fb1cdf58881038464630688fcb616104a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:27 +0000
Subject: [PATCH 36/39] fix: copy the picture fills of shapes and groups

---
 id.go            | 11 ++++++++++-
 structdrawing.go | 33 ++++++++++++++++++++++++++-------
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/id.go b/id.go
index 84aa338..0110c0e 100644
--- a/id.go
+++ b/id.go
@@ -99,6 +99,7 @@ func (f *Docx) useItemIDs(items []interface{}) {
 				f.useRelationID(o.BlipFill.Blip.Embed)
 			}
 		case *WordprocessingShape:
+			f.useFillID(o.SpPr)
 			if o.TextBox != nil && o.TextBox.Content != nil {
 				for _, p := range o.TextBox.Content.Paragraphs {
 					f.useItemIDs(p.Children)
@@ -107,8 +108,10 @@ func (f *Docx) useItemIDs(items []interface{}) {
 		case *WordprocessingCanvas:
 			f.useItemIDs(o.Items)
 		case *WordprocessingGroup:
+			f.useFillID(o.GroupShapeProperties)
 			f.useItemIDs(o.Elems)
 		case *WPGGroupShape:
+			f.useFillID(o.GroupShapeProperties)
 			f.useItemIDs(o.Elems)
 		}
 	}
@@ -131,6 +134,12 @@ func (f *Docx) useDrawingIDs(pr *WPDocPr, g *AGraphic) {
 		f.useItemIDs(g.GraphicData.Canvas.Items)
 	}
 	if g.GraphicData.Group != nil {
-		f.useItemIDs(g.GraphicData.Group.Elems)
+		f.useItemIDs([]interface{}{g.GraphicData.Group})
+	}
+}
+
+func (f *Docx) useFillID(pr *ShapeProperties) {
+	if pr != nil && pr.BlipFill != nil && pr.BlipFill.Blip != nil {
+		f.useRelationID(pr.BlipFill.Blip.Embed)
 	}
 }
diff --git a/structdrawing.go b/structdrawing.go
index 2143f4c..ef3d5d3 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -621,7 +621,7 @@ func (a *AGraphicData) copymedia(from, to *Docx) *AGraphicData {
 	na.file = to
 	switch {
 	case a.Shape != nil:
-		na.Shape = a.Shape.copymedia(to)
+		na.Shape = a.Shape.copymedia(from, to)
 	case a.Canvas != nil:
 		na.Canvas = a.Canvas.copymedia(from, to)
 	case a.Group != nil:
@@ -643,7 +643,7 @@ func copymediaitems(items []interface{}, from, to *Docx) []interface{} {
 		case *Picture:
 			nitems = append(nitems, o.copymedia(from, to))
 		case *WordprocessingShape:
-			nitems = append(nitems, o.copymedia(to))
+			nitems = append(nitems, o.copymedia(from, to))
 		case *WordprocessingCanvas:
 			nitems = append(nitems, o.copymedia(from, to))
 		case *WordprocessingGroup:
@@ -651,6 +651,7 @@ func copymediaitems(items []interface{}, from, to *Docx) []interface{} {
 		case *WPGGroupShape:
 			ng := *o
 			ng.Elems = copymediaitems(o.Elems, from, to)
+			ng.GroupShapeProperties = o.GroupShapeProperties.copymedia(from, to)
 			ng.file = to
 			nitems = append(nitems, &ng)
 		default:
@@ -667,16 +668,33 @@ func (p *Picture) copymedia(from, to *Docx) *Picture {
 	np := *p
 	blipfill := *p.BlipFill
 	np.BlipFill = &blipfill
-	blipfill.Blip.Embed = ""
-	if m, tgt, err := from.referMedia(p.BlipFill.Blip.Embed); err == nil {
-		blipfill.Blip.Embed = to.addImage(tgt[strings.LastIndex(tgt, ".")+1:], m.Data)
-	}
+	blipfill.Blip.Embed = copyembed(blipfill.Blip.Embed, from, to)
 	return &np
 }
 
-func (w *WordprocessingShape) copymedia(to *Docx) *WordprocessingShape {
+// copyembed copies the media of the relationship and gives its new id
+func copyembed(id string, from, to *Docx) string {
+	m, tgt, err := from.referMedia(id)
+	if err != nil {
+		return ""
+	}
+	return to.addImage(tgt[strings.LastIndex(tgt, ".")+1:], m.Data)
+}
+
+func (w *ShapeProperties) copymedia(from, to *Docx) *ShapeProperties {
+	if w == nil || w.BlipFill == nil || w.BlipFill.Blip == nil {
+		return w
+	}
+	nw, fill, blip := *w, *w.BlipFill, *w.BlipFill.Blip
+	nw.BlipFill, fill.Blip = &fill, &blip
+	blip.Embed = copyembed(blip.Embed, from, to)
+	return &nw
+}
+
+func (w *WordprocessingShape) copymedia(from, to *Docx) *WordprocessingShape {
 	nw := *w
 	nw.file = to
+	nw.SpPr = w.SpPr.copymedia(from, to)
 	if w.TextBox == nil || w.TextBox.Content == nil {
 		return &nw
 	}
@@ -700,6 +718,7 @@ func (c *WordprocessingCanvas) copymedia(from, to *Docx) *WordprocessingCanvas {
 func (w *WordprocessingGroup) copymedia(from, to *Docx) *WordprocessingGroup {
 	nw := *w
 	nw.Elems = copymediaitems(w.Elems, from, to)
+	nw.GroupShapeProperties = w.GroupShapeProperties.copymedia(from, to)
 	nw.file = to
 	return &nw
 }
-- 
2.43.0


From 8c96c051af05627bcf15b0fa0413df0396c00eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:54 +0000
Subject: [PATCH 37/39] fix: keep drawings without media when copying

---
 media.go         |  4 +++
 structdrawing.go | 77 +++++++++++++++++++++++++++---------------------
 2 files changed, 48 insertions(+), 33 deletions(-)

diff --git a/media.go b/media.go
index e3b13ca..b78220b 100644
--- a/media.go
+++ b/media.go
@@ -47,6 +47,10 @@ func (f *Docx) Media(name string) *Media {
 
 // referMedia finds the media that the relationship id refers to
 func (f *Docx) referMedia(id string) (m *Media, target string, err error) {
+	if f == nil { // a drawing that belongs to no document
+		err = ErrRefIDNotFound
+		return
+	}
 	target, err = f.ReferTarget(id)
 	if err != nil {
 		return
diff --git a/structdrawing.go b/structdrawing.go
index ef3d5d3..0620f02 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -288,13 +288,13 @@ func (r *WPInline) String() string {
 
 func (r *WPInline) copymedia(to *Docx) *WPInline {
 	if r.Graphic == nil || r.Graphic.GraphicData == nil { // no media
-		return r
+		return r.copyplain(to)
 	}
 	if r.Graphic.GraphicData.Pic != nil {
 		if r.Graphic.GraphicData.Pic.BlipFill != nil {
 			m, tgt, err := r.file.referMedia(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 			if err != nil {
-				return nil
+				return r.copyplain(to)
 			}
 			format := tgt[strings.LastIndex(tgt, ".")+1:]
 			idn := to.nextDocID()
@@ -330,23 +330,27 @@ func (r *WPInline) copymedia(to *Docx) *WPInline {
 			pic.BlipFill = &blipfill
 			return &inln
 		}
-		return nil
+		return r.copyplain(to)
 	}
-	if gd := r.Graphic.GraphicData.copymedia(r.file, to); gd != nil {
-		inln := *r
+	return r.copyplain(to)
+}
+
+// copyplain copies the drawing, with all media and links in its shapes
+func (r *WPInline) copyplain(to *Docx) *WPInline {
+	inln := *r
+	inln.file = to
+	if r.Graphic != nil {
 		grph := *r.Graphic
-		inln.Graphic = &grph
-		grph.GraphicData = gd
 		grph.file = to
-		inln.file = to
-		if r.DocPr != nil {
-			docpr := *r.DocPr
-			docpr.ID = to.nextDocID()
-			inln.DocPr = &docpr
-		}
-		return &inln
+		grph.GraphicData = r.Graphic.GraphicData.copymedia(r.file, to)
+		inln.Graphic = &grph
 	}
-	return nil
+	if r.DocPr != nil {
+		docpr := *r.DocPr
+		docpr.ID = to.nextDocID()
+		inln.DocPr = &docpr
+	}
+	return &inln
 }
 
 // WPExtent represents the extent of a drawing in a Word document.
@@ -615,19 +619,22 @@ func (a *AGraphicData) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 	return nil
 }
 
-// copymedia copies the shape, canvas or group with all media and links in it
+// copymedia copies the graphic with all media and links in it
 func (a *AGraphicData) copymedia(from, to *Docx) *AGraphicData {
+	if a == nil {
+		return nil
+	}
 	na := *a
 	na.file = to
 	switch {
+	case a.Pic != nil:
+		na.Pic = a.Pic.copymedia(from, to)
 	case a.Shape != nil:
 		na.Shape = a.Shape.copymedia(from, to)
 	case a.Canvas != nil:
 		na.Canvas = a.Canvas.copymedia(from, to)
 	case a.Group != nil:
 		na.Group = a.Group.copymedia(from, to)
-	default:
-		return nil
 	}
 	return &na
 }
@@ -1492,13 +1499,13 @@ func (r *WPAnchor) String() string {
 
 func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
 	if r.Graphic == nil || r.Graphic.GraphicData == nil { // no media
-		return r
+		return r.copyplain(to)
 	}
 	if r.Graphic.GraphicData.Pic != nil {
 		if r.Graphic.GraphicData.Pic.BlipFill != nil {
 			m, tgt, err := r.file.referMedia(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 			if err != nil {
-				return nil
+				return r.copyplain(to)
 			}
 			format := tgt[strings.LastIndex(tgt, ".")+1:]
 			idn := to.nextDocID()
@@ -1534,23 +1541,27 @@ func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
 			pic.BlipFill = &blipfill
 			return &anch
 		}
-		return nil
+		return r.copyplain(to)
 	}
-	if gd := r.Graphic.GraphicData.copymedia(r.file, to); gd != nil {
-		anch := *r
+	return r.copyplain(to)
+}
+
+// copyplain copies the drawing, with all media and links in its shapes
+func (r *WPAnchor) copyplain(to *Docx) *WPAnchor {
+	anch := *r
+	anch.file = to
+	if r.Graphic != nil {
 		grph := *r.Graphic
-		anch.Graphic = &grph
-		grph.GraphicData = gd
 		grph.file = to
-		anch.file = to
-		if r.DocPr != nil {
-			docpr := *r.DocPr
-			docpr.ID = to.nextDocID()
-			anch.DocPr = &docpr
-		}
-		return &anch
+		grph.GraphicData = r.Graphic.GraphicData.copymedia(r.file, to)
+		anch.Graphic = &grph
 	}
-	return nil
+	if r.DocPr != nil {
+		docpr := *r.DocPr
+		docpr.ID = to.nextDocID()
+		anch.DocPr = &docpr
+	}
+	return &anch
 }
 
 // WPSimplePos represents the position of an object in a Word document.
-- 
2.43.0


From 0ae69f9334d1ee6544e63914279da97ff051be7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:10 +0000
Subject: [PATCH 38/39] fix: keep the relationship of a hyperlink with an
 anchor

---
 structpara.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structpara.go b/structpara.go
index b96ff32..9840d37 100644
--- a/structpara.go
+++ b/structpara.go
@@ -279,7 +279,7 @@ func (p *Paragraph) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 				if id != "" {
 					value.ID = id
 				}
-				if anchor != "" {
+				if anchor != "" && id == "" { // a place in the target of the relationship otherwise
 					value.ID = anchor
 				}
 				elem = &value
-- 
2.43.0


From 1761987654022260012369082790dfa4f364f729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:53 +0000
Subject: [PATCH 39/39] fix: keep template files that have the name of a new
 picture

---
 image.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/image.go b/image.go
index 0a6845e..447d9cf 100644
--- a/image.go
+++ b/image.go
@@ -22,15 +22,29 @@ package docx
 
 import (
 	"strconv"
+	"strings"
 	"sync/atomic"
 )
 
 // addImage add image to docx and return its rId
 func (f *Docx) addImage(format string, data []byte) string {
 	m := Media{Data: data}
-	for m.Name == "" || f.Media(m.Name) != nil { // never reuse a name
+	for m.Name == "" || f.hasFile(m.String()) { // never reuse a name
 		m.Name = "image" + strconv.Itoa(int(atomic.AddUintptr(&f.imageID, 1))) + "." + format
 	}
 	f.addMedia(m)
 	return f.addImageRelation(m)
 }
+
+// hasFile tells whether the path belongs to a media or to a file of the template
+func (f *Docx) hasFile(path string) bool {
+	if f.Media(strings.TrimPrefix(path, MEDIA_FOLDER)) != nil {
+		return true
+	}
+	for _, name := range f.tmpfslst {
+		if name == path {
+			return true
+		}
+	}
+	return false
+}
-- 
2.43.0

