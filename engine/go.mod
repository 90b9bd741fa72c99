module vpengine

go 1.26.0

require (
	golang.org/x/net v0.61.0
	golang.org/x/tools v0.52.0
)

require (
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
	golang.org/x/text v0.7.0 // indirect
)

replace (
	golang.org/x/net => golang.org/x/net v0.7.0
	golang.org/x/text => golang.org/x/text v0.7.0
)
