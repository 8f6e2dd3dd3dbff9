// Drives the Go binary parser from a command file and records what it returns.
package main

import (
	"bufio"
	"encoding/hex"
	"fmt"
	"os"
	"strconv"
	"strings"

	def "github.com/COVESA/vss-tools/binary/go_parser/datamodel"
	parser "github.com/COVESA/vss-tools/binary/go_parser/parserlib"
)

var out *bufio.Writer
var root *def.Node_t
var nodes []*def.Node_t
var index map[*def.Node_t]int

func hx(s string) string { return "x" + hex.EncodeToString([]byte(s)) }

func unhex(s string) string {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func dump(n *def.Node_t, parent *def.Node_t, depth int) {
	me := len(nodes)
	nodes = append(nodes, n)
	index[n] = me
	fmt.Fprintf(out, "N %d %d %d %d %d %s %s %s %s %s", me, depth, parser.VSSgetType(n), parser.VSSgetNumOfChildren(n), parser.VSSgetValidation(n),
		hx(parser.VSSgetName(n)), hx(parser.VSSgetUUID(n)), hx(parser.VSSgetDescr(n)), hx(parser.VSSgetDatatype(n)), hx(parser.VSSgetUnit(n)))
	a := parser.VSSgetNumOfAllowedElements(n)
	fmt.Fprintf(out, " %d", a)
	for i := 0; i < a; i++ {
		fmt.Fprintf(out, " %s", hx(parser.VSSgetAllowedElement(n, i)))
	}
	if parser.VSSgetParent(n) == parent {
		fmt.Fprintf(out, " P\n")
	} else {
		fmt.Fprintf(out, " BADPARENT\n")
	}
	for i := 0; i < parser.VSSgetNumOfChildren(n); i++ {
		dump(parser.VSSgetChild(n, i), n, depth+1)
	}
	if parser.VSSgetChild(n, parser.VSSgetNumOfChildren(n)) != nil {
		fmt.Fprintf(out, "BADCHILD\n")
	}
}

func atoi(s string) int {
	v, err := strconv.Atoi(s)
	if err != nil {
		panic("driver: " + err.Error())
	}
	return v
}

func op(f []string) {
	defer func() {
		if e := recover(); e != nil {
			fmt.Fprintf(out, "PANIC %s\n", hx(fmt.Sprint(e)))
		}
	}()
	switch f[0] {
	case "R":
		root = parser.VSSReadTree(unhex(f[1]))
	case "D":
		nodes = nil
		index = map[*def.Node_t]int{}
		dump(root, nil, 0)
	case "S":
		r, any, leaf, max, ns := atoi(f[1]), f[2] == "1", f[3] == "1", atoi(f[4]), atoi(f[5])
		var list []string
		for i := 0; i < ns; i++ {
			list = append(list, unhex(f[7+i][1:]))
		}
		val := -1
		data, found := parser.VSSsearchNodes(unhex(f[6][1:]), nodes[r], max, any, leaf, ns, list, &val)
		fmt.Fprintf(out, "F %d %d\n", found, val)
		for i := 0; i < found; i++ {
			k, ok := index[data[i].NodeHandle]
			if !ok {
				k = -1
			}
			fmt.Fprintf(out, "M %s %s %d\n", hx(data[i].NodePath), hx(parser.VSSgetName(data[i].NodeHandle)), k)
		}
	case "L":
		fmt.Fprintf(out, "F %d\n", parser.VSSGetLeafNodesList(nodes[atoi(f[1])], unhex(f[2])))
	case "U":
		fmt.Fprintf(out, "F %d\n", parser.VSSGetUuidList(nodes[atoi(f[1])], unhex(f[2])))
	case "W":
		parser.VSSWriteTree(unhex(f[2]), nodes[atoi(f[1])])
	}
}

func main() {
	in, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	o, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	out = bufio.NewWriter(o)
	for _, line := range strings.Split(string(in), "\n") {
		f := strings.Fields(line)
		if len(f) == 0 {
			continue
		}
		fmt.Fprintf(out, "OP %s\n", f[0])
		out.Flush()
		op(f)
	}
	fmt.Fprintf(out, "END\n")
	out.Flush()
	o.Close()
}
