module verifsim

go 1.23

require (
	github.com/cespedes/accounting v0.0.0
	verif.local/rt v0.0.0
)

replace (
	github.com/cespedes/accounting => ../repo
	github.com/cespedes/tableview => ./faketable
	github.com/lib/pq => ./fakepq
	verif.local/rt => ./rt
)
