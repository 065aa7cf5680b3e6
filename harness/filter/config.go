package filter

import (
	"errors"
	"io"
	"os"
	"time"

	"github.com/BurntSushi/toml"
	"github.com/c2h5oh/datasize"
	"github.com/jumptrading/influx-spout/v2/config"
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/spf13/afero"
)

var zzModes = []string{"listener", "listener_http", "filter", "downsampler", "writer", "monitor", "", "other"}

func zzBetween(v, lo, hi int) bool { return sym.And(v >= lo, v <= hi) }

// zzRules makes up rules and tells whether they are well-formed.
func zzRules(n int, writer bool) (rules []config.Rule, ok, unknown bool) {
	ok = true
	for i := sym.Choose("rules", n+1); i > 0; i-- {
		var r config.Rule
		r.Rtype = []string{"basic", "regex", "negregex", "tags", "", "other"}[sym.Choose("type", 6)]
		which := sym.Choose("match", 6)
		r.Match = []string{"", "a", "(", "a{2,1}", `\`, "^[a-c]+$"}[which]
		tags := sym.Choose("tags", 5)
		r.Tags = [][][]string{nil, {{"k", "v"}}, {{"k"}}, {{"k", "v"}, {"k", "v", "x"}}, {{}}}[tags]
		if sym.Choose("subject", 2) == 1 {
			r.Subject = "s"
		}
		rules = append(rules, r)
		if (r.Subject != "") == writer {
			ok = false
		}
		switch r.Rtype {
		case "":
			ok = false
		case "basic":
			ok = ok && which != 0 && tags == 0
		case "tags":
			ok = ok && which == 0 && tags == 1
		case "other":
			unknown = true
		default:
			ok = ok && (which == 1 || which == 5) && tags == 0
		}
	}
	return rules, ok, unknown
}

// ZZ_Validate: every setting is arbitrary; a configuration is accepted exactly
// if its component can work with it.
func ZZ_Validate() {
	mode := sym.Choose("mode", len(zzModes))
	c := &config.Config{
		Mode:               zzModes[mode],
		NATSAddress:        "nats",
		NATSSubject:        []string{"a", "b"}[:sym.Choose("subjects", 3)],
		NATSSubjectMonitor: "monitor",
		InfluxDBAddress:    "influx",
		InfluxDBProtocol:   "http",
		InfluxDBPort:       sym.Int("influxdb_port"),
		BatchMaxCount:      10,
		BatchMaxSize:       datasize.ByteSize(sym.Uint64("batch_max_size")),
		BatchMaxAge:        config.NewDuration(time.Duration(sym.Int64("batch_max_age"))),
		Port:               sym.Int("port"),
		Workers:            sym.Int("workers"),
		StatsInterval:      config.NewDuration(time.Duration(sym.Int64("stats_interval"))),
		ProbePort:          sym.Int("probe_port"),
		PprofPort:          sym.Int("pprof_port"),
		DownsamplePeriod:   config.NewDuration(time.Duration(sym.Int64("downsample_period"))),
		DownsampleSuffix:   "-down",
	}
	switch {
	case c.Mode == "downsampler" && sym.Choose("suffix", 2) == 1:
		c.DownsampleSuffix = ""
	case c.Mode == "writer":
		switch sym.Choose("unusual", 7) {
		case 1:
			c.InfluxDBUser = "u"
		case 2:
			c.InfluxDBPass = "p"
		case 3:
			c.InfluxDBUser, c.InfluxDBPass = "u", "p"
		case 4:
			c.InfluxDBProtocol = ""
		case 5:
			c.InfluxDBProtocol = "ftp"
		case 6:
			c.InfluxDBProtocol = "https"
		}
	}
	rulesOK, unknown := true, false
	if c.Mode == "filter" || c.Mode == "writer" {
		c.Rule, rulesOK, unknown = zzRules(sym.Param("rules", 1), c.Mode == "writer")
	}
	stats := c.StatsInterval.Duration > 0
	ok := sym.And(zzBetween(c.ProbePort, 0, 65535), zzBetween(c.PprofPort, 0, 65535))
	if c.Mode != "downsampler" {
		ok = sym.And(ok, c.DownsamplePeriod.Duration == 0)
	}
	switch c.Mode {
	case "listener", "listener_http":
		ok = sym.And(ok, sym.And(stats, sym.And(zzBetween(c.Port, 1, 65535), c.BatchMaxSize <= datasize.MB)))
		ok = sym.And(ok, len(c.NATSSubject) == 1)
		if c.Mode == "listener_http" {
			ok = sym.And(ok, c.BatchMaxAge.Duration > 0)
		}
	case "filter":
		ok = sym.And(ok, sym.And(stats, c.Workers >= 1))
		ok = sym.And(ok, len(c.NATSSubject) == 1)
	case "downsampler":
		ok = sym.And(ok, sym.And(stats, c.DownsamplePeriod.Duration > 0))
		ok = sym.And(ok, c.DownsampleSuffix != "")
	case "writer":
		ok = sym.And(ok, sym.And(stats, sym.And(c.Workers >= 0, zzBetween(c.InfluxDBPort, 1, 65535))))
		ok = sym.And(ok, len(c.NATSSubject) >= 1)
		ok = sym.And(ok, c.InfluxDBProtocol == "http" || c.InfluxDBProtocol == "https")
		ok = sym.And(ok, (c.InfluxDBUser == "") == (c.InfluxDBPass == ""))
	case "monitor":
		ok = sym.And(ok, zzBetween(c.Port, 1, 65535))
	default:
		ok = false
	}
	ok = sym.And(ok, rulesOK)
	err := c.Validate()
	if err == nil {
		sym.Assert(ok, "unsafe-is-refused")
		sym.Reach("accepted")
		_, err = RuleSetFromConfig(c)
		sym.Assert(err == nil || unknown, "rules-usable")
	} else if !unknown {
		sym.Assert(!ok, "valid-is-accepted")
		sym.Reach("refused")
	}
}

type zzFile struct {
	afero.File
	text string
}

func (f *zzFile) Read(p []byte) (int, error) {
	if f.text == "" {
		return 0, io.EOF
	}
	n := copy(p, f.text)
	f.text = f.text[n:]
	return n, nil
}

func (f *zzFile) Close() error { return nil }

type zzFs struct {
	afero.Fs
	open func(name string) (afero.File, error)
}

func (fs *zzFs) Open(name string) (afero.File, error) { return fs.open(name) }

// zzSetting is one setting: its value in a file, and the field it ends up in.
type zzSetting struct {
	set  func(c *config.Config) // with a fresh arbitrary value
	same func(a, b *config.Config) bool
	copy func(to, from *config.Config)
}

func zzDur(name string, f func(c *config.Config) *config.Duration) zzSetting {
	return zzSetting{
		func(c *config.Config) { f(c).Duration = 1 + time.Duration(sym.Uint32(name)) },
		func(a, b *config.Config) bool { return f(a).Duration == f(b).Duration },
		func(to, from *config.Config) { *f(to) = *f(from) },
	}
}

func zzInt(name string, f func(c *config.Config) *int) zzSetting {
	return zzSetting{
		func(c *config.Config) { *f(c) = 1 + int(sym.Byte(name)) },
		func(a, b *config.Config) bool { return *f(a) == *f(b) },
		func(to, from *config.Config) { *f(to) = *f(from) },
	}
}

func zzSize(name string, f func(c *config.Config) *datasize.ByteSize) zzSetting {
	return zzSetting{
		func(c *config.Config) { *f(c) = datasize.ByteSize(1 + int(sym.Byte(name))) },
		func(a, b *config.Config) bool { return *f(a) == *f(b) },
		func(to, from *config.Config) { *f(to) = *f(from) },
	}
}

func zzStr(name string, f func(c *config.Config) *string) zzSetting {
	return zzSetting{
		func(c *config.Config) { *f(c) = "x" + sym.String(name, 1) },
		func(a, b *config.Config) bool { return *f(a) == *f(b) },
		func(to, from *config.Config) { *f(to) = *f(from) },
	}
}

func zzSettings() []zzSetting {
	return []zzSetting{
		zzStr("name", func(c *config.Config) *string { return &c.Name }),
		zzStr("nats_address", func(c *config.Config) *string { return &c.NATSAddress }),
		zzStr("monitor_subject", func(c *config.Config) *string { return &c.NATSSubjectMonitor }),
		zzStr("junkyard", func(c *config.Config) *string { return &c.NATSSubjectJunkyard }),
		zzStr("influxdb_address", func(c *config.Config) *string { return &c.InfluxDBAddress }),
		{
			func(c *config.Config) { c.InfluxDBProtocol = "https" },
			func(a, b *config.Config) bool { return a.InfluxDBProtocol == b.InfluxDBProtocol },
			func(to, from *config.Config) { to.InfluxDBProtocol = from.InfluxDBProtocol },
		},
		{
			func(c *config.Config) { c.NATSSubject = []string{"x" + sym.String("subject", 1)} },
			func(a, b *config.Config) bool {
				return len(a.NATSSubject) == len(b.NATSSubject) && a.NATSSubject[0] == b.NATSSubject[0]
			},
			func(to, from *config.Config) { to.NATSSubject = from.NATSSubject },
		},
		{
			func(c *config.Config) { c.Debug = true },
			func(a, b *config.Config) bool { return a.Debug == b.Debug },
			func(to, from *config.Config) { to.Debug = from.Debug },
		},
		zzInt("influxdb_port", func(c *config.Config) *int { return &c.InfluxDBPort }),
		zzStr("dbname", func(c *config.Config) *string { return &c.DBName }),
		zzInt("count", func(c *config.Config) *int { return &c.BatchMaxCount }),
		zzSize("size", func(c *config.Config) *datasize.ByteSize { return &c.BatchMaxSize }),
		zzDur("age", func(c *config.Config) *config.Duration { return &c.BatchMaxAge }),
		zzInt("port", func(c *config.Config) *int { return &c.Port }),
		zzInt("workers", func(c *config.Config) *int { return &c.Workers }),
		zzDur("write_timeout", func(c *config.Config) *config.Duration { return &c.WriteTimeout }),
		zzInt("retry_batches", func(c *config.Config) *int { return &c.WriterRetryBatches }),
		zzDur("retry_interval", func(c *config.Config) *config.Duration { return &c.WriterRetryInterval }),
		zzDur("retry_timeout", func(c *config.Config) *config.Duration { return &c.WriterRetryTimeout }),
		zzSize("read_buffer", func(c *config.Config) *datasize.ByteSize { return &c.ReadBufferSize }),
		zzSize("pending", func(c *config.Config) *datasize.ByteSize { return &c.NATSMaxPendingSize }),
		zzDur("delta", func(c *config.Config) *config.Duration { return &c.MaxTimeDelta }),
		zzDur("stats", func(c *config.Config) *config.Duration { return &c.StatsInterval }),
		zzInt("probe", func(c *config.Config) *int { return &c.ProbePort }),
		zzInt("pprof", func(c *config.Config) *int { return &c.PprofPort }),
		zzStr("suffix", func(c *config.Config) *string { return &c.DownsampleSuffix }),
		zzStr("queue", func(c *config.Config) *string { return &c.QueueGroup }),
	}
}

// ZZ_Load: a common file and a file of its own, either of which may be missing,
// broken or set any one or two of the settings; everything else is as
// documented.
func ZZ_Load() {
	const common = "/etc/influx-spout.toml"
	own := []string{"/some/where/inst.toml", "inst", "./a.b/inst.conf"}[sym.Choose("path", 3)]
	mode := zzModes[sym.Choose("mode", len(zzModes))]
	settings := zzSettings()
	x := sym.Choose("setting", len(settings))
	where := sym.Choose("where", 4) // in neither, the common, its own or both files
	modeIn := sym.Choose("modein", 2)

	// what the documentation says
	want := &config.Config{
		Mode:                mode,
		Name:                "inst",
		NATSAddress:         "nats://localhost:4222",
		NATSSubject:         []string{"influx-spout"},
		NATSSubjectMonitor:  "influx-spout-monitor",
		NATSSubjectJunkyard: "influx-spout-junk",
		InfluxDBAddress:     "localhost",
		InfluxDBProtocol:    "http",
		InfluxDBPort:        8086,
		DBName:              "influx-spout-junk",
		BatchMaxCount:       10,
		BatchMaxSize:        10 * datasize.MB,
		BatchMaxAge:         config.NewDuration(5 * time.Minute),
		Workers:             8,
		WriteTimeout:        config.NewDuration(30 * time.Second),
		WriterRetryBatches:  1,
		WriterRetryInterval: config.NewDuration(10 * time.Second),
		WriterRetryTimeout:  config.NewDuration(time.Minute),
		ReadBufferSize:      4 * datasize.MB,
		NATSMaxPendingSize:  200 * datasize.MB,
		MaxTimeDelta:        config.NewDuration(10 * time.Minute),
		DownsampleSuffix:    "-archive",
		StatsInterval:       config.NewDuration(3 * time.Second),
	}
	switch mode {
	case "listener":
		want.BatchMaxSize = datasize.MB
		want.Port = 10001
	case "listener_http":
		want.BatchMaxSize = datasize.MB
		want.Port = 13337
	case "downsampler":
		want.DownsamplePeriod = config.NewDuration(time.Minute)
	case "monitor":
		want.Port = 9331
	}
	// what the files set
	first, second := *want, *want
	if where&1 != 0 {
		settings[x].set(&first)
		*want = first
	}
	if where&2 != 0 {
		settings[x].set(&second)
		*want = second
	}
	fault := sym.Choose("fault", 6)
	const (
		none = iota
		commonMissing
		ownMissing
		commonBroken
		ownBroken
		commonDenied
	)
	toml.VerifDecode = func(text string, v interface{}) error {
		c := v.(*config.Config)
		src, bit := &first, 1
		if text == own {
			src, bit = &second, 2
		}
		if (text == common && fault == commonBroken) || (text == own && fault == ownBroken) {
			return errors.New("broken")
		}
		if mode != "" && modeIn == bit-1 {
			c.Mode = mode
		}
		if where&bit != 0 {
			settings[x].copy(c, src)
		}
		return nil
	}
	config.Fs = &zzFs{open: func(name string) (afero.File, error) {
		if name == common {
			switch fault {
			case commonMissing:
				return nil, &os.PathError{Op: "open", Path: name, Err: os.ErrNotExist}
			case commonDenied:
				return nil, &os.PathError{Op: "open", Path: name, Err: os.ErrPermission}
			}
		} else {
			sym.Assert(name == own, "opens")
			if fault == ownMissing {
				return nil, &os.PathError{Op: "open", Path: name, Err: os.ErrNotExist}
			}
		}
		return &zzFile{text: name}, nil
	}}
	creds := sym.Choose("credentials", 4)
	user, pass := "", ""
	if creds&1 != 0 {
		user = "u"
	}
	if creds&2 != 0 {
		pass = "p"
	}
	os.Setenv("INFLUXDB_USER", user)
	os.Setenv("INFLUXDB_PASS", pass)

	c, err := config.NewConfigFromFile(own)
	bad := fault >= ownMissing || mode == "" || mode == "other"
	if fault == commonMissing {
		// what the common file would have set is not set
		if modeIn == 0 {
			bad = true
		}
		if where&1 != 0 {
			return
		}
	}
	if mode == "writer" && (creds == 1 || creds == 2) {
		bad = true
	}
	if bad {
		sym.Assert(err != nil, "refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "accepted")
	if err != nil {
		return
	}
	sym.Reach("accepted")
	sym.Assert(c.Mode == mode, "mode")
	for i := range settings {
		sym.Assert(settings[i].same(c, want), "setting")
	}
	sym.Assert(c.DownsamplePeriod.Duration == want.DownsamplePeriod.Duration, "setting")
	sym.Assert(len(c.Rule) == 0, "no-rules")
	if mode == "writer" {
		sym.Assert(c.InfluxDBUser == user && c.InfluxDBPass == pass, "credentials")
	} else {
		sym.Assert(c.InfluxDBUser == "" && c.InfluxDBPass == "", "credentials-for-writers-only")
	}
}
