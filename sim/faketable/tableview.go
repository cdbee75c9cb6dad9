// Package tableview stands in for the terminal widget: instead of a screen and
// a user, Run prints the table and selects each of its first rows once.
package tableview

import "fmt"

// TableView holds a description of the table to be displayed
type TableView struct {
	columns  []string
	data     [][]string
	selected func(row int)
	commands []func(row int)
}

// Text alignment in each column.
const (
	AlignLeft = iota
	AlignCenter
	AlignRight
)

// NewTableView returns an empty TableView
func NewTableView() *TableView { return new(TableView) }

// FillTable populates a TableView with the given data
func (t *TableView) FillTable(columns []string, data [][]string) { t.columns, t.data = columns, data }

// SetCell sets the content of a cell in the specified position.
func (t *TableView) SetCell(row int, column int, content string) {
	if column >= len(t.columns) || row < 0 {
		return
	}
	for row >= len(t.data) {
		t.data = append(t.data, nil)
	}
	for column >= len(t.data[row]) {
		t.data[row] = append(t.data[row], "")
	}
	t.data[row][column] = content
}

// SetExpansion does nothing.
func (t *TableView) SetExpansion(column int, expansion int) {}

// SetAlign does nothing.
func (t *TableView) SetAlign(column int, align int) {}

// NewCommand sets the function to be executed when a given key is pressed.
func (t *TableView) NewCommand(ch rune, text string, action func(row int)) {
	t.commands = append(t.commands, action)
}

// SetSelectedFunc sets the function to be executed when the user presses ENTER.
func (t *TableView) SetSelectedFunc(action func(row int)) { t.selected = action }

// Run prints the table and presses ENTER on its first rows.
func (t *TableView) Run() {
	fmt.Printf("table %q\n", t.columns)
	for _, r := range t.data {
		fmt.Printf("row %q\n", r)
	}
	if t.selected != nil {
		for i := 1; i <= len(t.data) && i <= 4; i++ {
			t.selected(i)
		}
	}
}
