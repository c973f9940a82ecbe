property = 'C12'
pkg = 'internal/storage'
edits = [
  ('internal/storage/device_cache.go',
   '\tcacheByPhone map[string]*model.Device\n\tmutex        *sync.Mutex\n',
   '\tcacheByPhone map[string]*model.Device\n\tlist         []*model.Device // 设备列表快照，避免每次查询都重建\n\tmutex        *sync.Mutex\n'),
  ('internal/storage/device_cache.go',
   '\treturn maps.Values(cache.cacheByPhone)',
   '\tif len(cache.list) != len(cache.cacheByPhone) {\n\t\tcache.list = maps.Values(cache.cacheByPhone)\n\t}\n\treturn cache.list'),
]
needs = 'list, deregister one device, register another one, list again'
breaks = 'the stale snapshot still lists the deregistered device (and misses the new one) because only the counts are compared'
demo = r'''
package storage

import (
	"testing"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
)

func TestDemo(t *testing.T) {
	c := GetDeviceCache()
	c.CacheDevice(&model.Device{Phone: "1", Plate: "A"})
	if l := c.ListDevice(); len(l) != 1 {
		t.Fatal(len(l))
	}
	c.DelDeviceByPhone("1")
	c.CacheDevice(&model.Device{Phone: "2", Plate: "B"})
	if l := c.ListDevice(); len(l) != 1 || l[0].Phone != "2" {
		t.Fatal("deregistered device still listed")
	}
}
'''
