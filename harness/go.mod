module verif/harness

go 1.23

require github.com/fumiama/go-docx v0.0.0

require github.com/fumiama/imgsz v0.0.2 // indirect

replace github.com/fumiama/go-docx => /repo
