package props

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// C16Known says which instant a cell stands for.
type C16Known struct {
	Row  int    `json:"row"`
	Key  string `json:"key"`
	Unix int64  `json:"unix"`
}

// C16Case is a case with instants that were put into it.
type C16Case struct {
	Case
	Known []C16Known `json:"known,omitempty"`
	// Elsewhere makes the run on a machine with another local time zone, one
	// that no input is in.
	Elsewhere bool `json:"elsewhere,omitempty"`
}

var elsewhere = time.FixedZone("Elsewhere", 19800)

var (
	timeLayouts = []string{
		time.RFC3339, time.RFC3339Nano, "2006-01-02 15:04:05", time.RFC1123Z, time.RFC1123, time.RFC822Z, time.ANSIC, time.UnixDate,
		"02/Jan/2006:15:04:05 -0700", "2006-01-02", time.Kitchen, "15:04:05.000", time.StampMicro, "20060102150405", "2006-002",
		"2006-01-02T15:04:05.000Z0700", "Jan _2 2006 03:04:05PM -07", "2006-01-02 15:04:05,999", "January 2, 2006", "RAW",
	}
	timeOffsets = map[string]bool{time.RFC3339: true, time.RFC3339Nano: true, time.RFC1123Z: true, "02/Jan/2006:15:04:05 -0700": true, "2006-01-02T15:04:05.000Z0700": true}
	timeZones   = []string{"UTC", "Europe/Berlin", "America/New_York", "Asia/Kathmandu", "Pacific/Apia", "Australia/Lord_Howe", "Africa/Monrovia"}
	timeInZones = []string{"UTC", "Europe/Berlin", "America/New_York", "Asia/Kathmandu", "Pacific/Apia"}
)

func genInstant(t *rapid.T) time.Time {
	var s int64
	switch rapid.IntRange(0, 3).Draw(t, "era") {
	case 0: // around daylight saving changes of 2023 and 2024
		s = rapid.SampledFrom([]int64{1679792400, 1698541200, 1678604400, 1699164000, 1711846800, 1709164800}).Draw(t, "dst") + rapid.Int64Range(-7200, 7200).Draw(t, "d")
	case 1:
		s = rapid.Int64Range(-2e9, 4e9).Draw(t, "unix")
	case 2:
		s = rapid.SampledFrom([]int64{0, -1, 951782400, 1709251199, 1735689599, 253402300799, -62135596800}).Draw(t, "edge")
	default:
		s = rapid.Int64Range(1.6e9, 1.8e9).Draw(t, "now")
	}
	n := rapid.SampledFrom([]int64{0, 0, 1, 999999999, 500000000, 123456789, 120000000}).Draw(t, "nano")
	return time.Unix(s, n).UTC()
}

func zone(name string) *time.Location {
	l, err := time.LoadLocation(name)
	if err != nil {
		die("%v", err)
	}
	return l
}

func init() {
	register(&Prop{
		ID:  "C16",
		New: func() any { return &C16Case{} },
		Draw: func(t *rapid.T) any {
			c := &C16Case{}
			c.F = F{CSV: "o.csv", Concurrency: genConc(t)}
			c.Cfg.ParseTime = map[string]string{}
			// Names of properties by their roles.
			nm := map[string]string{}
			for i, k := range []string{"t", "a", "u", "l", "z"} {
				nm[k] = k
				if rapid.IntRange(0, 2).Draw(t, "named") == 0 {
					nm[k] = rapid.SampledFrom([][]string{{"createdAt", "T", "ts_1", "Ärger", "дата"}, {"A", "dataObj", "a-b"}, {"updatedAt", "U", "u u"}, {"L", "listOf", "ль"}, {"Z", "zEd"}}[i]).Draw(t, "name")
				}
			}
			c.F.CaseSensitiveKeys = rapid.IntRange(0, 3).Draw(t, "cs") == 0
			kt, kat, kau, kl, kz := "."+nm["t"], "."+nm["a"]+"."+nm["t"], "."+nm["a"]+"."+nm["u"], "."+nm["l"], "."+nm["z"]
			keys := []string{kt, kat, kau, kl + ".[0]", kl + ".[1]", kz}
			lay := map[string]string{}
			for _, k := range keys[:5] {
				lay[k] = rapid.SampledFrom(timeLayouts).Draw(t, "layout")
				if rapid.IntRange(0, 3).Draw(t, "conf") > 0 {
					c.Cfg.ParseTime[k] = lay[k]
				}
			}
			c.Elsewhere = rapid.IntRange(0, 2).Draw(t, "elsewhere") == 0
			prefix := rapid.IntRange(0, 3).Draw(t, "prefix") == 0
			if prefix {
				c.Cfg.MatchLinePrefix = `^([^|]*)\|(.*)\|`
				lay["._prefix.[0]"] = rapid.SampledFrom(timeLayouts).Draw(t, "layout")
				c.Cfg.ParseTime["._prefix.[0]"] = lay["._prefix.[0]"]
			}
			if rapid.Bool().Draw(t, "tz") {
				c.Cfg.OutputTimezone = rapid.SampledFrom(timeZones).Draw(t, "zone")
			}
			c.Cfg.OutputTimeFormat = rapid.SampledFrom([]string{"", "", time.RFC3339Nano, "2006-01-02 15:04:05", "02.01.06 3:04:05.000 PM MST", time.RFC1123Z, "2006-01-02", "x", time.RFC850}).Draw(t, "out")
			if c.Elsewhere && strings.Contains(c.Cfg.OutputTimeFormat, "MST") {
				c.Cfg.OutputTimeFormat = time.RFC1123Z // Names of zones are those of the machine.
			}
			value := func(row int, key string) string {
				l := lay[key]
				if l == "" || l == "RAW" {
					l = time.RFC3339
				}
				in := rapid.SampledFrom(timeInZones).Draw(t, "in")
				at := genInstant(t)
				if timeOffsets[l] && at.Year() > 0 && at.Year() < 9999 {
					v := at.In(zone(in))
					if v.Format("-07:00:00")[6:] == ":00" || strings.HasPrefix(v.Format("Z07:00:00"), "Z") { // offsets with seconds do not fit in
						if c.Cfg.ParseTime[key] == l {
							c.Known = append(c.Known, C16Known{Row: row, Key: key, Unix: at.Unix()})
						}
						return v.Format(l)
					}
				}
				return at.In(zone(in)).Format(l)
			}
			for i := rapid.IntRange(1, 5).Draw(t, "lines"); i > 0; i-- {
				cell := map[string]string{}
				for _, k := range keys {
					switch rapid.IntRange(0, 9).Draw(t, "cell") {
					case 0, 1:
					case 2:
						cell[k] = rapid.SampledFrom([]string{"null", "true", "12", "1.5", "1700000000", `""`, `"soon"`, `"2020-13-45T00:00:00Z"`, `"2020-02-30"`, `" 2020-01-01"`, `"2020-01-01T00:00:00Z "`, `"2020-01-01T00:00:00.5Z"`, `"2016-12-31T23:59:60Z"`, `"0"`, "{}", "[]", `["2020-01-01"]`}).Draw(t, "odd")
					case 3: // some other layout
						cell[k] = js(genInstant(t).Format(rapid.SampledFrom(timeLayouts[:len(timeLayouts)-1]).Draw(t, "other")))
					default:
						cell[k] = js(value(len(c.Lines), k))
					}
				}
				var p, pa, pl []string
				if cell[kt] != "" {
					p = append(p, js(nm["t"])+":"+cell[kt])
				}
				for k, n := range map[string]string{kat: nm["t"], kau: nm["u"]} {
					if cell[k] != "" {
						pa = append(pa, js(n)+":"+cell[k])
					}
				}
				sort.Strings(pa)
				if len(pa) > 0 {
					p = append(p, js(nm["a"])+`:{`+strings.Join(pa, ",")+"}")
				}
				if cell[kl+".[0]"] != "" && cell[kl+".[1]"] != "" {
					pl = []string{cell[kl+".[0]"], cell[kl+".[1]"]}
					p = append(p, js(nm["l"])+`:[`+strings.Join(pl, ",")+"]")
				} else {
					var kn []C16Known
					for _, k := range c.Known {
						if k.Row != len(c.Lines) || !strings.HasPrefix(k.Key, kl+".") {
							kn = append(kn, k)
						}
					}
					c.Known = kn
				}
				if cell[kz] != "" {
					p = append(p, js(nm["z"])+":"+cell[kz])
				}
				l := "{" + strings.Join(p, ",") + "}"
				if prefix && rapid.IntRange(0, 4).Draw(t, "pre") > 0 {
					l = value(len(c.Lines), "._prefix.[0]") + "|x|" + l
				}
				c.Lines = append(c.Lines, B(l))
			}
			switch rapid.IntRange(0, 9).Draw(t, "opt") {
			case 0:
				c.Cfg.ReplaceKeys = map[string]string{kt: "ts", kat: "ts", kz: "zed"}
			case 1:
				c.Cfg.IncludeKeys = []string{kat, kt, kz}
			case 2:
				c.F.GetKey = kt
			case 3:
				c.Cfg.ReplaceKeys = map[string]string{kt: kat, kat: kt, kau: "u"}
			case 4:
				c.Cfg.Transpose = map[string]string{kl: "items"}
			case 5:
				c.Cfg.Transpose = map[string]string{"." + nm["a"]: "times"}
			}
			return c
		},
		Check: func(e *Env, x any) error {
			c := x.(*C16Case)
			if c.Elsewhere {
				defer func(l *time.Location) { time.Local = l }(time.Local)
				time.Local = elsewhere
			}
			o := e.RunCase(&c.Case)
			if err := checkCSV(&c.Case, o); err != nil {
				return err
			}
			return checkInstants(c, o)
		},
		Classify: func(x any) ([]string, bool) {
			c := x.(*C16Case)
			var l []string
			n := 0
			for _, k := range c.Cfg.ParseTime {
				if k != "RAW" {
					n++
				}
			}
			m := NewModel(&c.Case)
			failed, conv := false, 0
			for i, col := range m.Main.Cols {
				if f, ok := c.Cfg.ParseTime[col.Key]; !ok || f == "RAW" {
					continue
				}
				for _, r := range m.Main.Rows {
					if r[i].S == timeFailed {
						failed = true
					} else if r[i].text() != "" {
						conv++
					}
				}
			}
			for k, v := range map[string]bool{"failures": failed, "zone": c.Cfg.OutputTimezone != "", "known-instant": len(c.Known) > 0, "prefix": c.Cfg.MatchLinePrefix != "", "local-zone": c.Elsewhere, "multi-worker": c.F.Concurrency > 1} {
				if v {
					l = append(l, k)
				}
			}
			return l, conv > 0
		},
	})
}

// checkInstants reads the converted cells back as instants.
func checkInstants(c *C16Case, o *Out) error {
	of := c.Cfg.OutputTimeFormat
	if of == "" {
		of = time.RFC3339
	}
	if !timeOffsets[of] || c.Cfg.Transpose != nil || c.Cfg.ReplaceKeys != nil || c.Cfg.IncludeKeys != nil || c.F.GetKey != "" {
		return nil
	}
	rows, err := parseCSV(o.Files["o.csv"])
	if err != nil {
		return err
	}
	pos := map[string]int{}
	for i, h := range rows[0] {
		pos[h] = i
	}
	want := time.UTC
	if z := c.Cfg.OutputTimezone; z != "" {
		want = zone(z)
	}
	for _, k := range c.Known {
		g := rows[k.Row+1][pos[k.Key]]
		t, err := time.Parse(of, g)
		if err != nil {
			return fmt.Errorf("row %d, %s: %q is not in the output format %q", k.Row, k.Key, g, of)
		}
		// A zone whose offset has seconds can not be written exactly.
		_, off := time.Unix(k.Unix, 0).In(want).Zone()
		if c.Cfg.OutputTimezone != "" && off%60 != 0 {
			continue
		}
		if t.Unix() != k.Unix {
			return fmt.Errorf("row %d, %s: %q is not the instant %s", k.Row, k.Key, g, time.Unix(k.Unix, 0).UTC())
		}
		if _, o := t.Zone(); c.Cfg.OutputTimezone != "" && o != off {
			return fmt.Errorf("row %d, %s: %q is not in zone %s", k.Row, k.Key, g, want)
		}
	}
	return nil
}
