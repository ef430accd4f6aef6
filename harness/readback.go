package props

import (
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/klauspost/compress/zstd"
)

// parseCSV is an exact RFC 4180 reader (no white space trimming, no line-ending
// normalisation; an empty line is a record of one empty field). It also
// reports for each field whether it was quoted.
func parseCSV(s string) (rows [][]string, err error) {
	rows, _, err = parseCSVQ(s)
	return rows, err
}

func parseCSVQ(s string) (rows [][]string, quoted [][]bool, err error) {
	i := 0
	for i < len(s) {
		var row []string
		var qs []bool
		for {
			var f strings.Builder
			q := false
			if i < len(s) && s[i] == '"' {
				q = true
				i++
				for {
					j := strings.IndexByte(s[i:], '"')
					if j < 0 {
						return nil, nil, errors.New("CSV: unterminated quote")
					}
					f.WriteString(s[i : i+j])
					i += j + 1
					if i < len(s) && s[i] == '"' {
						f.WriteByte('"')
						i++
						continue
					}
					break
				}
				if i >= len(s) || (s[i] != ',' && s[i] != '\n') {
					return nil, nil, fmt.Errorf("CSV: text after closing quote or missing newline at byte %d", i)
				}
			} else {
				j := strings.IndexAny(s[i:], ",\n")
				if j < 0 {
					return nil, nil, errors.New("CSV: last record is not terminated")
				}
				fs := s[i : i+j]
				if strings.ContainsAny(fs, "\"\r") {
					return nil, nil, fmt.Errorf("CSV: bare quote or CR in unquoted field %q", fs)
				}
				f.WriteString(fs)
				i += j
			}
			row = append(row, f.String())
			qs = append(qs, q)
			if s[i] == ',' {
				i++
				continue
			}
			i++
			break
		}
		rows = append(rows, row)
		quoted = append(quoted, qs)
	}
	return rows, quoted, nil
}

// decompress reads a file written by the tool, by its name.
func readOutput(fn string) (string, error) {
	b, err := os.ReadFile(fn)
	if err != nil {
		return "", err
	}
	return decompressByName(fn, b)
}

func decompressByName(fn string, b []byte) (string, error) {
	fn = strings.ToLower(fn)
	switch {
	case strings.HasSuffix(fn, ".gz"):
		r, err := gzip.NewReader(bytes.NewReader(b))
		if err != nil {
			return "", fmt.Errorf("gzip %s: %w", fn, err)
		}
		d, err := io.ReadAll(r)
		if err != nil {
			return "", fmt.Errorf("gzip %s: %w", fn, err)
		}
		return string(d), nil
	case strings.HasSuffix(fn, ".zst"):
		r, err := zstd.NewReader(bytes.NewReader(b), zstd.WithDecoderConcurrency(1))
		if err != nil {
			return "", fmt.Errorf("zstd %s: %w", fn, err)
		}
		defer r.Close()
		if len(b) == 0 {
			return "", fmt.Errorf("zstd %s: empty file", fn)
		}
		d, err := io.ReadAll(r)
		if err != nil {
			return "", fmt.Errorf("zstd %s: %w", fn, err)
		}
		return string(d), nil
	}
	return string(b), nil
}
