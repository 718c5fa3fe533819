package gen

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"
)

// format is a number format together with what it makes of the numbers for
// which that is beyond dispute.
type format struct {
	name string
	id   int    // of built-in formats
	code string // of all others
	typ  string
	pick func(r *Rand) float64
	ok   func(v float64) bool
	text func(v float64, d1904 bool) string
}

// scaled is v times 10^k as a whole number, and whether all readers agree
// on the rounding.
func scaled(v float64, k int) (int64, bool) {
	x := math.Abs(v) * math.Pow10(k)
	f := x - math.Floor(x)
	n := int64(math.Round(x))
	return n, x < 1e11 && math.Abs(f-0.5) > 1e-3 && (n != 0 || v == 0)
}

// digits shows n, which is scaled by 10^k.
func digits(n int64, k, whole int, commas bool) string {
	s := strconv.FormatInt(n, 10)
	for len(s) < k+whole {
		s = "0" + s
	}
	s, frac := s[:len(s)-k], s[len(s)-k:]
	if commas {
		var groups []string
		for len(s) > 3 {
			groups = append([]string{s[len(s)-3:]}, groups...)
			s = s[:len(s)-3]
		}
		s = strings.Join(append([]string{s}, groups...), ",")
	}
	if k > 0 {
		s += "." + frac
	}
	return s
}

// decimal is a format with k decimals. In pos and neg, which show positive
// and negative numbers, # is the place of the digits.
func decimal(id int, code string, k, whole int, percent, commas bool, pos, neg, zero string) format {
	f := format{id: id, code: code, typ: "float"}
	if k == 0 && !percent {
		f.typ = "integer"
	}
	scale := k
	if percent {
		scale += 2
	}
	f.pick = func(r *Rand) float64 {
		max := r.PickInt(9, 99, 999, 1200, 9999, 1234567, 99999999)
		return float64(r.Range(-max, max)) / float64(r.PickInt(1, 1, 4, 10, 100, 1000))
	}
	f.ok = func(v float64) bool {
		_, ok := scaled(v, scale)
		return ok && (v >= 0 || neg != "")
	}
	f.text = func(v float64, d1904 bool) string {
		n, _ := scaled(v, scale)
		s := digits(n, k, whole, commas)
		switch {
		case v == 0 && zero != "":
			return zero
		case v < 0:
			return strings.Replace(neg, "#", s, 1)
		}
		return strings.Replace(pos, "#", s, 1)
	}
	return f
}

// exponential is 0.00E+00.
func exponential(id int, code string) format {
	return format{id: id, code: code, typ: "float",
		pick: func(r *Rand) float64 {
			v, _ := strconv.ParseFloat(fmt.Sprintf("%d.%02de%d", r.Range(-9, 9), r.Intn(100), r.Range(-4, 6)), 64)
			return v
		},
		ok: func(v float64) bool {
			x, _ := strconv.ParseFloat(strconv.FormatFloat(v, 'E', 2, 64), 64)
			return x == v && (v == 0 || math.Abs(v) > 1e-5 && math.Abs(v) < 1e9)
		},
		text: func(v float64, d1904 bool) string {
			return strconv.FormatFloat(v, 'E', 2, 64)
		},
	}
}

// fraction is # ?/? and # ??/??.
func fraction(id int) format {
	return format{id: id, typ: "float",
		pick: func(r *Rand) float64 {
			return float64(r.Range(-4000, 4000)) / float64(r.PickInt(1, 2, 4, 8))
		},
		ok: func(v float64) bool { return v*8 == math.Trunc(v*8) && math.Abs(v) < 1e5 },
		text: func(v float64, d1904 bool) string {
			n, d := int64(math.Abs(v)*8), int64(8)
			for n%2 == 0 && d > 1 {
				n, d = n/2, d/2
			}
			sign := ""
			if v < 0 {
				sign = "-"
			}
			switch w := n / d; {
			case d == 1:
				return fmt.Sprintf("%s%d", sign, w)
			case w == 0:
				return fmt.Sprintf("%s%d/%d", sign, n, d)
			default:
				return fmt.Sprintf("%s%d %d/%d", sign, w, n%d, d)
			}
		},
	}
}

// choice shows one of three texts.
func choice(code, pos, neg, zero string) format {
	return format{code: code, typ: "float",
		pick: func(r *Rand) float64 { return float64(r.Range(-2, 2)) / 2 },
		ok:   func(v float64) bool { return math.Abs(v) < 1e9 },
		text: func(v float64, d1904 bool) string {
			if v < 0 {
				return neg
			} else if v > 0 {
				return pos
			}
			return zero
		},
	}
}

// moment takes a number of days apart.
func moment(v float64) (day, sec int64, ok bool) {
	t := v * 86400
	all := int64(math.Round(t))
	day, sec = all/86400, all%86400
	return day, sec, v >= 0 && v < 73000 && math.Abs(t-float64(all)) < 1e-5
}

// date is a format with parts of dates or times; layout is what time.Format
// calls it.
func date(id int, code, layout string) format {
	hours := strings.Contains(layout, "15") // one digit or two?
	time12 := strings.Contains(layout, "3:04") || strings.Contains(layout, "3时")
	timeOnly := !strings.ContainsAny(strings.NewReplacer("15", "", "04", "", "05", "", "03", "", "3", "").Replace(layout), "126")
	return format{id: id, code: code, typ: "date",
		pick: func(r *Rand) float64 {
			day := r.Range(61, 50000)
			if timeOnly && r.P(2) {
				day = 0
			}
			sec := 0
			switch r.Intn(4) {
			case 0:
				sec = r.Intn(86400)
			case 1:
				sec = r.PickInt(36000, 36001, 43199, 43200, 43201, 86399, 86340, 59, 60, 1)
			case 2:
				sec = r.Intn(1440) * 60
			}
			v := float64(day) + float64(sec)/86400
			if r.P(3) {
				v = math.Round(v*1e10) / 1e10
			}
			return v
		},
		ok: func(v float64) bool {
			day, sec, ok := moment(v)
			if hours && sec < 36000 {
				return false
			}
			return ok && (day >= 61 || timeOnly && day == 0)
		},
		text: func(v float64, d1904 bool) string {
			day, sec, _ := moment(v)
			t := serialDate(float64(day), d1904).Add(time.Duration(sec) * time.Second)
			s := t.Format(layout)
			if strings.Contains(layout, "时") && time12 {
				if sec < 43200 {
					return strings.Replace(s, "AM", "上午", 1)
				}
				return strings.Replace(s, "PM", "下午", 1)
			}
			return s
		},
	}
}

// span shows an amount of time.
func span(id int, code string, unit int64, rest string) format {
	return format{id: id, code: code, typ: "date",
		pick: func(r *Rand) float64 {
			return float64(r.Intn(r.PickInt(60, 3600, 86400, 8640000))) / 86400
		},
		ok: func(v float64) bool {
			day, _, ok := moment(v)
			return ok && (day >= 61 || day == 0)
		},
		text: func(v float64, d1904 bool) string {
			day, sec, _ := moment(v)
			sec += day * 86400
			s := strconv.FormatInt(sec/unit, 10)
			if strings.HasPrefix(code, "[hh]") && len(s) < 2 {
				s = "0" + s
			}
			return s + time.Unix(sec, 0).UTC().Format(rest)
		},
	}
}

// formats beyond the plain ones; a file declares only those it uses.
var formats = func() []format {
	fs := []format{
		decimal(3, "", 0, 1, false, true, "#", "-#", ""),
		decimal(4, "", 2, 1, false, true, "#", "-#", ""),
		decimal(9, "", 0, 1, true, false, "#%", "-#%", ""),
		decimal(37, "", 0, 1, false, true, "#", "(#)", ""),
		decimal(38, "", 0, 1, false, true, "#", "(#)", ""),
		decimal(39, "", 2, 1, false, true, "#", "(#)", ""),
		decimal(40, "", 2, 1, false, true, "#", "(#)", ""),
		decimal(41, "", 0, 1, false, true, "#", "", "-"),
		decimal(42, "", 0, 1, false, true, "$#", "$(#)", "$-"),
		decimal(43, "", 2, 1, false, true, "#", "", "-"),
		decimal(44, "", 2, 1, false, true, "$#", "$(#)", "$-"),
		decimal(59, "", 0, 1, false, false, "#", "-#", ""),
		decimal(60, "", 2, 1, false, false, "#", "-#", ""),
		decimal(61, "", 0, 1, false, true, "#", "-#", ""),
		decimal(62, "", 2, 1, false, true, "#", "-#", ""),
		decimal(67, "", 0, 1, true, false, "#%", "-#%", ""),
		decimal(68, "", 2, 1, true, false, "#%", "-#%", ""),
		exponential(11, ""),
		fraction(12), fraction(13), fraction(69), fraction(70),

		decimal(0, "0%", 0, 1, true, false, "#%", "-#%", ""),
		decimal(0, "0.0%", 1, 1, true, false, "#%", "-#%", ""),
		decimal(0, "0.0", 1, 1, false, false, "#", "-#", ""),
		decimal(0, "0", 0, 1, false, false, "#", "-#", ""),
		decimal(0, "#,##0", 0, 1, false, true, "#", "-#", ""),
		decimal(0, "#,##0.0", 1, 1, false, true, "#", "-#", ""),
		decimal(0, "#,##0.00", 2, 1, false, true, "#", "-#", ""),
		decimal(0, "00", 0, 2, false, false, "#", "-#", ""),
		decimal(0, "00000", 0, 5, false, false, "#", "-#", ""),
		decimal(0, "#,##0_);(#,##0)", 0, 1, false, true, "#", "(#)", ""),
		decimal(0, "#,##0.00_);[Red](#,##0.00)", 2, 1, false, true, "#", "(#)", ""),
		decimal(0, "#,##0.00;[Red]-#,##0.00", 2, 1, false, true, "#", "-#", ""),
		decimal(0, "$#,##0.00", 2, 1, false, true, "$#", "-$#", ""),
		decimal(0, `"$"#,##0.00`, 2, 1, false, true, "$#", "-$#", ""),
		decimal(0, `"$"#,##0_);\("$"#,##0\)`, 0, 1, false, true, "$#", "($#)", ""),
		decimal(0, `#,##0.00\ "EUR"`, 2, 1, false, true, "# EUR", "-# EUR", ""),
		decimal(0, `#,##0.00\ [$€-407]`, 2, 1, false, true, "# €", "-# €", ""),
		decimal(0, `[$$-409]#,##0.00`, 2, 1, false, true, "$#", "-$#", ""),
		decimal(0, `0.0"kg"`, 1, 1, false, false, "#kg", "-#kg", ""),
		decimal(0, `0.000" m/s, dry"`, 3, 1, false, false, "# m/s, dry", "-# m/s, dry", ""),
		decimal(0, `"No. "0`, 0, 1, false, false, "No. #", "-No. #", ""),
		decimal(0, `0;-0;"nil"`, 0, 1, false, false, "#", "-#", "nil"),
		decimal(0, `0.0;"minus; "0.0`, 1, 1, false, false, "#", "minus; #", ""),
		decimal(0, `_(* #,##0.00_);_(* \(#,##0.00\);_(* "-"??_);_(@_)`, 2, 1, false, true, "#", "(#)", "-"),
		exponential(0, "0.00E+00"),
		choice(`"yes";"yes";"no"`, "yes", "yes", "no"),
		choice(`"up";"down";"-"`, "up", "down", "-"),

		date(15, "", "2-Jan-06"), date(16, "", "2-Jan"), date(17, "", "Jan-06"),
		date(18, "", "3:04 PM"), date(19, "", "3:04:05 PM"), date(20, "", "15:04"), date(21, "", "15:04:05"),
		date(45, "", "04:05"), date(30, "", "1-2-06"),
		date(27, "", "2006年1月"), date(28, "", "1月2日"), date(29, "", "1月2日"), date(31, "", "2006年1月2日"), date(36, "", "2006年1月"),
		date(32, "", "15时04分"), date(33, "", "15时04分05秒"),
		date(34, "", "PM 3时04分"), date(35, "", "PM 3时04分05秒"), date(55, "", "PM 3时04分"), date(56, "", "PM 3时04分05秒"),
		date(50, "", "2006年1月"), date(51, "", "1月2日"), date(52, "", "2006年1月"), date(53, "", "1月2日"), date(54, "", "1月2日"),
		date(57, "", "2006年1月"), date(58, "", "1月2日"),
		date(71, "", "2/1/2006"), date(72, "", "2-Jan-06"), date(73, "", "2-Jan"), date(74, "", "Jan-06"),
		date(75, "", "15:04"), date(76, "", "15:04:05"), date(77, "", "2/1/2006 15:04"), date(78, "", "04:05"),
		span(46, "", 3600, ":04:05"), span(79, "", 3600, ":04:05"),

		date(0, "h:mm", "15:04"), date(0, "hh:mm", "15:04"), date(0, "hh:mm:ss", "15:04:05"), date(0, "mm:ss", "04:05"),
		date(0, "yyyy-mm-dd", "2006-01-02"), date(0, "YYYY-MM-DD", "2006-01-02"), date(0, "yyyy-mm-dd;@", "2006-01-02"),
		date(0, "yyyy-mm-dd hh:mm", "2006-01-02 15:04"), date(0, "yyyy-mm-dd hh:mm:ss", "2006-01-02 15:04:05"),
		date(0, `yyyy\-mm\-dd\ hh:mm:ss`, "2006-01-02 15:04:05"), date(0, "dd/mm/yyyy hh:mm", "02/01/2006 15:04"),
		date(0, "d.m.yyyy", "2.1.2006"), date(0, "mm/dd/yyyy", "01/02/2006"), date(0, "m/d/yy", "1/2/06"), date(0, "dd-mmm-yyyy", "02-Jan-2006"),
		date(0, "d mmmm yyyy", "2 January 2006"), date(0, "dddd, mmmm dd, yyyy", "Monday, January 02, 2006"), date(0, "ddd d mmm", "Mon 2 Jan"),
		date(0, `[$-409]mmm\ d\,\ yyyy`, "Jan 2, 2006"), date(0, "[$-409]d-mmm-yy;@", "2-Jan-06"),
		date(0, "h:mm AM/PM", "3:04 PM"), date(0, "hh:mm:ss AM/PM", "03:04:05 PM"), date(0, `[$-409]h:mm\ AM/PM;@`, "3:04 PM"),
		date(0, `yyyy"年"m"月"d"日"`, "2006年1月2日"), date(0, `"dated "yyyy-mm-dd`, ""),
		span(0, "[h]:mm:ss", 3600, ":04:05"), span(0, "[hh]:mm", 3600, ":04"), span(0, "[m]:ss", 60, ":05"), span(0, "[s]", 1, ""),
	}
	for i := range fs {
		f := &fs[i]
		f.name = f.code
		if f.code == "" {
			f.name = fmt.Sprint("#", f.id)
		}
		if f.code == `"dated "yyyy-mm-dd` {
			iso := date(0, "", "2006-01-02")
			f.ok, f.pick = iso.ok, iso.pick
			f.text = func(v float64, d1904 bool) string { return "dated " + iso.text(v, d1904) }
		}
	}
	return fs
}()

var formatNamed = func() map[string]*format {
	m := map[string]*format{}
	for i := range formats {
		m[formats[i].name] = &formats[i]
	}
	return m
}()

// used are the names of those formats which the cells have.
func (f *FileSpec) usedFormats() []string {
	has := map[string]bool{}
	for i := range f.Sheets {
		for _, c := range f.Sheets[i].Cells {
			has[c.F] = true
		}
	}
	var names []string
	for i := range formats {
		if has[formats[i].name] {
			names = append(names, formats[i].name)
		}
	}
	return names
}
