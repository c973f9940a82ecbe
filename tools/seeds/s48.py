property = 'C33'
pkg = 'internal/config'
edits = [('internal/config/config.go', """	case "WARN":
		logLevel = int8(zerolog.WarnLevel)
""", """	case "WARN":
		logLevel = int8(zerolog.WarnLevel)
		if logCfg.PrintAsJSON && logCfg.FileEnable {
			logLevel = int8(zerolog.InfoLevel)
		}
""")]
needs = 'level WARN together with JSON output and file logging'
breaks = 'informational entries are logged although WARN is configured'
demo = r'''
package config

import "testing"

func TestDemo(t *testing.T) {
	for i := 0; i < 4; i++ {
		c := &Config{Log: &logConf{LogLevel: "WARN", PrintAsJSON: i&1 == 1, FileEnable: i&2 == 2}}
		if l := c.ParseLogConf().LogLevel; l != 2 {
			t.Fatal(i, l)
		}
	}
}
'''
