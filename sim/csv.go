package verifsim

import (
	"errors"
	"strings"
)

// parseCSV reads CSV as RFC 4180 describes it, with either line ending.
func parseCSV(s string) (rows [][]string, err error) {
	var row []string
	for i := 0; i < len(s); {
		var f strings.Builder
		if s[i] == '"' {
			i++
			for {
				if i >= len(s) {
					return rows, errors.New("quoted field does not end")
				}
				if s[i] == '"' {
					if i+1 < len(s) && s[i+1] == '"' {
						f.WriteByte('"')
						i += 2
						continue
					}
					i++
					break
				}
				f.WriteByte(s[i])
				i++
			}
			if i < len(s) && s[i] != ',' && s[i] != '\n' && s[i] != '\r' {
				return rows, errors.New("text after a quoted field")
			}
		} else {
			for i < len(s) && s[i] != ',' && s[i] != '\n' && !(s[i] == '\r' && i+1 < len(s) && s[i+1] == '\n') {
				if s[i] == '"' {
					return rows, errors.New("quote inside an unquoted field")
				}
				f.WriteByte(s[i])
				i++
			}
		}
		row = append(row, f.String())
		switch {
		case i >= len(s):
			return rows, errors.New("last line is not terminated")
		case s[i] == ',':
			i++
			if i >= len(s) {
				return rows, errors.New("last line is not terminated")
			}
			if s[i] == '\n' {
				row = append(row, "")
				i++
				rows = append(rows, row)
				row = nil
			}
		default:
			if s[i] == '\r' {
				i++
			}
			i++
			rows = append(rows, row)
			row = nil
		}
	}
	return rows, nil
}

// writeCSV writes rows, quoting what needs it and sometimes what does not.
func (r *Rand) writeCSV(rows [][]string) string {
	var b strings.Builder
	nl := r.pick([]string{"\n", "\n", "\r\n"})
	all := r.P(1, 4)
	for _, row := range rows {
		for i, f := range row {
			if i > 0 {
				b.WriteByte(',')
			}
			if all || strings.ContainsAny(f, "\",\r\n") || strings.HasPrefix(f, " ") || f != "" && r.P(1, 8) {
				b.WriteString(`"` + strings.ReplaceAll(f, `"`, `""`) + `"`)
			} else {
				b.WriteString(f)
			}
		}
		b.WriteString(nl)
	}
	return b.String()
}
