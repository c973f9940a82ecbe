package main

import (
	"github.com/fakeyanss/jt808-server-go/internal/config"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

func main() {
	v.Main(map[string]func(){"HLevel": HLevel, "HFields": HFields})
}

func alloc[T any](p **T) *T {
	*p = new(T)
	return *p
}

var names = []string{"DEBUG", "INFO", "WARN", "ERROR", "FATAL"}

// HLevel: a level name selects that level, whatever else is configured.
// bound: the 5 level names with free switches and sizes
func HLevel() {
	c := &config.Config{}
	l := alloc(&c.Log)
	k := v.Pick("level", len(names))
	l.LogLevel = config.LogLevelType(names[k])
	l.ConsoleEnable, l.FileEnable, l.PrintAsJSON = v.Bool("console"), v.Bool("file"), v.Bool("json")
	l.MaxSizeOfRolling = v.Int("size", 0, 1000)
	r := c.ParseLogConf()
	v.Assert(int(r.LogLevel) == k, "level")
	v.Reach("level")
}

// HFields: every log setting reaches the logger unchanged.
// bound: free switches, sizes 0..1000000, directory and file name of 0..3 free bytes, the 5 level names
func HFields() {
	c := &config.Config{}
	l := alloc(&c.Log)
	l.LogLevel = config.LogLevelType(names[v.Pick("level", len(names))])
	console, file, js := v.Bool("console"), v.Bool("file"), v.Bool("json")
	l.ConsoleEnable, l.FileEnable, l.PrintAsJSON = console, file, js
	size, backups, age := v.Int("size", 0, 1000000), v.Int("backups", 0, 1000000), v.Int("age", 0, 1000000)
	l.MaxSizeOfRolling, l.MaxBackupsOfRolling, l.MaxAgeOfRolling = size, backups, age
	dir, name := v.Bytes("dir", v.Pick("n", 4)), v.Bytes("name", v.Pick("m", 4))
	l.LogDirectory, l.LogFile = string(dir), string(name)
	r := c.ParseLogConf()
	v.Assert(v.And(r.ConsoleLoggingEnabled == console, r.FileLoggingEnabled == file, r.EncodeLogsAsJSON == js), "switches")
	v.Assert(v.And(r.MaxSize == size, r.MaxBackups == backups, r.MaxAge == age), "sizes")
	v.Assert(v.And(v.EqBytes([]byte(r.Directory), dir), v.EqBytes([]byte(r.Filename), name)), "names")
	v.Reach("fields")
}
