// Package props holds the generated-input checks of the properties listed in
// /verif/properties.jsonl. It talks to the code under test only through its
// public API and its command line.
package props

import (
	"encoding/base64"
	"encoding/json"
	"strings"
	"unicode/utf8"

	"github.com/vearutop/flatjsonl/flatjsonl"
)

// B is a byte string that is readable in JSON if it is valid UTF-8.
type B string

// MarshalJSON keeps replay files readable and exact.
func (b B) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(b)) {
		var sb strings.Builder
		e := json.NewEncoder(&sb)
		e.SetEscapeHTML(false)
		if err := e.Encode(string(b)); err != nil {
			return nil, err
		}
		return []byte(strings.TrimSuffix(sb.String(), "\n")), nil
	}
	return json.Marshal(map[string]string{"b64": base64.StdEncoding.EncodeToString([]byte(b))})
}

// UnmarshalJSON is the inverse.
func (b *B) UnmarshalJSON(d []byte) error {
	var s string
	if err := json.Unmarshal(d, &s); err == nil {
		*b = B(s)
		return nil
	}
	var m map[string]string
	if err := json.Unmarshal(d, &m); err != nil {
		return err
	}
	r, err := base64.StdEncoding.DecodeString(m["b64"])
	*b = B(r)
	return err
}

// F mirrors the processing flags (outputs are file names without directory).
type F struct {
	CSV               string `json:",omitempty"`
	SQLite            string `json:",omitempty"`
	SQLMaxCols        int    `json:",omitempty"`
	SQLTable          string `json:",omitempty"`
	PGDump            string `json:",omitempty"`
	Raw               string `json:",omitempty"`
	RawDelim          B      `json:",omitempty"`
	MaxLines          int    `json:",omitempty"`
	OffsetLines       int    `json:",omitempty"`
	MaxLinesKeys      int    `json:",omitempty"`
	FieldLimit        int    `json:",omitempty"`
	ChildrenLimit     int    `json:",omitempty"`
	KeyLimit          int    `json:",omitempty"`
	BufSize           int    `json:",omitempty"`
	GetKey            string `json:",omitempty"`
	ReplaceKeys       bool   `json:",omitempty"`
	ExtractStrings    bool   `json:",omitempty"`
	SkipZeroCols      bool   `json:",omitempty"`
	AddSequence       bool   `json:",omitempty"`
	MatchLinePrefix   string `json:",omitempty"`
	CaseSensitiveKeys bool   `json:",omitempty"`
	ShowKeysFlat      bool   `json:",omitempty"`
	ShowKeysHier      bool   `json:",omitempty"`
	ShowKeysInfo      bool   `json:",omitempty"`
	ShowJSONSchema    bool   `json:",omitempty"`
	Concurrency       int    `json:",omitempty"`
	MemLimit          int    `json:",omitempty"`
	Verbosity         int    `json:",omitempty"`
}

// Cfg mirrors the configuration file.
type Cfg struct {
	MatchLinePrefix    string            `json:"matchLinePrefix,omitempty"`
	IncludeKeys        []string          `json:"includeKeys,omitempty"`
	IncludeKeysRegex   []string          `json:"includeKeysRegex,omitempty"`
	ExcludeKeys        []string          `json:"excludeKeys,omitempty"`
	ExcludeKeysRegex   []string          `json:"excludeKeysRegex,omitempty"`
	ReplaceKeys        map[string]string `json:"replaceKeys,omitempty"`
	ReplaceKeysRegex   map[string]string `json:"replaceKeysRegex,omitempty"`
	ParseTime          map[string]string `json:"parseTime,omitempty"`
	OutputTimeFormat   string            `json:"outputTimeFormat,omitempty"`
	OutputTimezone     string            `json:"outputTZ,omitempty"`
	ConcatDelimiter    *string           `json:"concatDelimiter,omitempty"`
	Transpose          map[string]string `json:"transpose,omitempty"`
	ExtractValuesRegex map[string]string `json:"extractValuesRegex,omitempty"`
	KeepJSON           []string          `json:"keepJSON,omitempty"`
	AllowCardinality   []string          `json:"allowCardinality,omitempty"`
}

// Real converts to the configuration type under test.
func (c Cfg) Real() flatjsonl.Config {
	var r flatjsonl.Config
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &r); err != nil {
		panic(err)
	}
	return r
}

// Case is one run of the tool: input lines and options.
type Case struct {
	Lines []B `json:"lines"`
	F     F   `json:"flags"`
	Cfg   Cfg `json:"config"`
}
