package harness

import (
	"fmt"
	"strconv"
	"strings"

	"simmod/api"
	"simmod/simrt"
)

// The settings and the commands that change them, as documented by the
// program's usage texts.

var tsOf = map[string]string{"32": "posix32", "32_32": "posix32_32", "64": "posix64", "64_32": "posix64_32", "32_y2k": "epoch2000_32", "local": "localinterp"}

// effect is what a command line sets. Lines that are not valid settings set
// nothing.
func effect(line string) map[string]string {
	a := strings.Fields(line)
	if len(a) < 2 {
		return nil
	}
	one := func(k string, v string) map[string]string { return map[string]string{k: v} }
	in := func(v string, l ...string) bool {
		for _, x := range l {
			if v == x {
				return true
			}
		}
		return false
	}
	cnt := func(v string) bool {
		n, err := strconv.Atoi(v)
		return err == nil && n >= 0
	}
	if a[0] == "timeout" {
		if len(a) != 3 || !in(a[1], "metadata", "request", "status", "datacounter", "transfer") {
			return nil
		}
		switch {
		case a[1] == "datacounter" && (a[2] == "off" || cnt(a[2]) && strings.Trim(a[2], "0") == ""):
			return one(a[1], "100")
		case a[2] == "off":
			return one(a[1], "60")
		case cnt(a[2]):
			return one(a[1], a[2])
		}
		return nil
	}
	if len(a) != 2 {
		return nil
	}
	v := a[1]
	switch a[0] {
	case "checksum":
		if v == "off" {
			v = "none"
		}
		if in(v, csNames...) {
			return one("csumtype", v)
		}
	case "descriptor":
		if v == "auto" {
			v = "d64"
		}
		if in(v, "d16", "d32", "d64") {
			return one(a[0], v)
		}
	case "freespace", "stream", "reqtstamp":
		if in(v, "yes", "no") {
			return one(a[0], v)
		}
	case "rxwilling", "txwilling":
		switch v {
		case "on":
			return one(a[0], "yes")
		case "off":
			return one(a[0], "no")
		case "capable":
			return one(a[0], v)
		}
	case "bcount":
		if cnt(v) {
			return one("bcount", v)
		}
	case "interval":
		if v == "off" {
			return one("binterval", "0")
		}
		if cnt(v) {
			return one("binterval", v)
		}
	case "timezone":
		if in(v, "local", "utc") {
			return one(a[0], v)
		}
	case "timestamp":
		if v == "off" {
			return one("reqtstamp", "no")
		}
		if t, ok := tsOf[v]; ok {
			return map[string]string{"reqtstamp": "yes", "timestamp": t}
		}
	}
	return nil
}

// settings are the values in force by name.
type settings map[string]string

func settingsOf(c api.Cli) settings {
	m := settings{}
	for _, k := range keys(c.Global) {
		m[k] = c.Global[k]
	}
	t := c.Timeout
	for k, v := range map[string]int{"metadata": t.Metadata, "request": t.Request, "status": t.Status, "transfer": t.Transfer, "datacounter": t.Datacounter, "ppad": c.Ppad, "buffersize": c.Buffersize, "port": c.Port} {
		m[k] = fmt.Sprint(v)
	}
	m["binterval"], m["bcount"] = fmt.Sprint(t.Binterval), fmt.Sprint(c.Bcount)
	m["timestamp"], m["timezone"], m["prompt"], m["sardir"] = c.Timestamp, c.Timezone, c.Prompt, c.Sardir
	m["v4multicast"], m["v6multicast"] = c.V4Multicast, c.V6Multicast
	return m
}

// factory are the settings of the shipped configuration.
func factory() settings {
	return settings{"descriptor": "d64", "csumtype": "none", "freespace": "yes", "txwilling": "yes", "rxwilling": "yes", "stream": "no",
		"reqtstamp": "yes", "reqstatus": "no", "udplite": "no", "timestamp": "posix64", "timezone": "utc", "bcount": "3", "binterval": "3",
		"metadata": "55", "request": "56", "status": "57", "transfer": "58", "datacounter": "100", "prompt": "saratoga", "ppad": "3",
		"buffersize": "1024", "port": "7542", "sardir": Sardir, "v4multicast": "224.0.0.108", "v6multicast": "ff02::6c"}
}

func (m settings) copy() settings {
	c := settings{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

// apply does what a command line does.
func (m settings) apply(line string) bool {
	f := effect(line)
	for k, v := range f {
		m[k] = v
	}
	return f != nil
}

// differ names a setting that is not as in w.
func (m settings) differ(w settings) string {
	for _, k := range keys(w) {
		if m[k] != w[k] {
			return k
		}
	}
	for _, k := range keys(m) {
		if _, ok := w[k]; !ok {
			return k
		}
	}
	return ""
}

var settingLines = []string{
	"descriptor d16", "descriptor d32", "descriptor d64", "descriptor auto",
	"checksum off", "checksum none", "checksum crc32", "checksum md5", "checksum sha1",
	"freespace yes", "freespace no", "stream yes", "stream no", "reqtstamp yes", "reqtstamp no",
	"rxwilling on", "rxwilling off", "rxwilling capable", "txwilling on", "txwilling off", "txwilling capable",
	"timestamp off", "timestamp 32", "timestamp 32_32", "timestamp 64", "timestamp 64_32", "timestamp 32_y2k", "timestamp local",
	"timezone local", "timezone utc", "interval off",
	"timeout metadata off", "timeout request off", "timeout status off", "timeout transfer off", "timeout datacounter off",
}

var beaconLines = []string{"descriptor d16", "descriptor d32", "descriptor d64", "freespace yes", "freespace no", "stream yes", "stream no",
	"rxwilling on", "rxwilling off", "rxwilling capable", "txwilling on", "txwilling off", "txwilling capable"}

// setLine draws a valid setting command.
func setLine(s *simrt.Stream) string {
	switch s.Pick(5, 1, 1, 2) {
	case 1:
		return fmt.Sprintf("bcount %d", s.Intn(50))
	case 2:
		return fmt.Sprintf("interval %d", s.Intn(50))
	case 3:
		return fmt.Sprintf("timeout %s %d", []string{"metadata", "request", "status", "transfer", "datacounter"}[s.Intn(5)], s.Intn([]int{1, 1000, 1000, 1000, 1000, 1 << 20, 1 << 40}[s.Intn(7)]))
	}
	return settingLines[s.Intn(len(settingLines))]
}

// badLine draws a command that must change no setting.
func badLine(s *simrt.Stream) string {
	cmds := []string{"descriptor", "checksum", "freespace", "stream", "reqtstamp", "rxwilling", "txwilling", "timestamp", "timezone", "interval", "bcount"}
	c := cmds[s.Intn(len(cmds))]
	bad := []string{"maybe", "-1", "d128", "d8", "1.5", "yes!", "YES", "on,off", "9999999999999999999999", "0x10", "no no", "?", "? ?", "32_64", "sha256", "invalid", "=", "descriptor=d16", "12a", "--", "\x00", "ÿ", "%s%n", "1e3", "1_000", "٣", "3s", "on.", "d64,", "d16=yes", "md5,sha1", "utc+1", "NaN"}
	b := bad[s.Intn(len(bad))]
	switch s.Intn(5) {
	case 0:
		return c
	case 1:
		return c + " " + settingWord(s) + " " + b
	case 2:
		t := []string{"metadata", "request", "status", "transfer", "datacounter", "nothing", "?", ""}[s.Intn(8)]
		w := []string{"-5", "x", "", "99999999999999999999", "1 2", "on", "yes", "?"}[s.Intn(8)]
		if t == "nothing" && s.Chance(1, 2) {
			w = "7"
		}
		return "timeout " + t + " " + w
	}
	return c + " " + b
}

func settingWord(s *simrt.Stream) string {
	return []string{"yes", "no", "on", "off", "capable", "d16", "md5", "32", "local", "3"}[s.Intn(10)]
}
