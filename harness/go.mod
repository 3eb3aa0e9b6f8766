module verif/harness

go 1.27

require (
	github.com/scouter-contrib/scouter-agent-golang v0.0.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/emirpasic/gods v1.12.0 // indirect
	github.com/magiconair/properties v1.8.4 // indirect
)

replace github.com/scouter-contrib/scouter-agent-golang => /repo
