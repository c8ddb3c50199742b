// Package sample has the samples from which converters are inferred for P32.
package sample

// A Shape is the form of a text of a time: ! stands for a digit of the year, @ of the month, # of the day, $ of the hour, % of the
// minute, ^ of the second, & of the hundredths * and ~ of the hour and minute of the zone offset; others stand for themselves.
type Shape struct {
	Text  string
	Half  int // 0: 24 hours, 1: AM, 2: PM
	Month int // the month when it is spelled
	Off   int // sign of the zone offset
}

// Stamps has the shapes of columns ta, tb and so on.
var Stamps = []Shape{
	{Text: "!!!!-@@-## $$:%%:^^"},
	{Text: "!!!!-@@-## $$:%%:^^ AM", Half: 1},
	{Text: "@/#/!!!! $:%%:^^ PM", Half: 2},
	{Text: "Mon Feb ## $$:%%:^^ !!!!", Month: 2},
	{Text: "Mon Mar ## $$:%%:^^ UTC !!!!", Month: 3},
	{Text: "Mon Apr ## $$:%%:^^ -**~~ !!!!", Month: 4, Off: -1},
	{Text: "## Jan 16 $$:%% +**~~", Month: 1, Off: 1},
	{Text: "## Jan 16 $$:%% UTC", Month: 1},
	{Text: "Monday, ##-Jan-16 $$:%%:^^ UTC", Month: 1},
	{Text: "Mon, ## Dec !!!! $$:%%:^^ +**~~", Month: 12, Off: 1},
	{Text: "Mon, ## Nov !!!! $$:%%:^^ UTC", Month: 11},
	{Text: "!!!!-@@-##T$$:%%:^^.&&Z"},
	{Text: "!!!!-@@-##T$$:%%:^^-**:~~", Off: -1},
	{Text: "!!!!-@-#"},
	{Text: "!!!!/@/##"},
	{Text: "!!!!@@##"},
}

// Local has the shapes of columns la, lb and so on, of times in a zone that the text does not tell.
var Local = []Shape{
	{Text: "!!!!-@@-## $$:%%:^^"},
	{Text: "@/#/!!!! $:%%:^^ PM", Half: 2},
	{Text: "!!!!@@##"},
	{Text: "!!!!-@@-##T$$:%%:^^+**:~~", Off: 1},
}

// Plain gives the text of a shape with year 2016 and ones elsewhere.
func Plain(s Shape) string {
	out, y := "", 0
	for _, c := range s.Text {
		switch c {
		case '!':
			out += "2016"[y : y+1]
			y++
		case '@', '#', '$', '%', '^', '&', '*', '~':
			out += "1"
		default:
			out += string(c)
		}
	}
	return quoted(out)
}

func quoted(s string) string { return "\"" + s + "\"" }

// Header and Row give a line each, with the first cells and those of shapes whose names begin with a letter.
func Header(first, letter string, shapes []Shape) string {
	for i := range shapes {
		first += "," + letter + string(rune('a'+i))
	}
	return first + "\n"
}

func Row(first string, shapes []Shape, at int, cell string) string {
	for i, s := range shapes {
		if i == at {
			first += "," + quoted(cell)
		} else {
			first += "," + Plain(s)
		}
	}
	return first + "\n"
}

const (
	Heads = "a,f,s,e"
	Cells = "12,1.5,x,"
)

// All is the sample with the times that tell their zone or are in UTC.
func All() string {
	return Header(Heads, "t", Stamps) + Row(Cells, Stamps, -1, "") + Row("-7,-3,\"y,\"\"z\",", Stamps, -1, "")
}

// Zoned is the sample with times in New York.
func Zoned() string {
	return Header("a", "l", Local) + Row("1", Local, -1, "") + Row("2", Local, -1, "")
}
