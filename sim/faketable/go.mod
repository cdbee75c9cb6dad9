module github.com/cespedes/tableview

go 1.13
