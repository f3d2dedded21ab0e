module verif/harness

go 1.25

require github.com/jfcg/sorty/v2 v2.1.0

require github.com/jfcg/sixb v1.4.1 // indirect

replace github.com/jfcg/sorty/v2 => /repo
