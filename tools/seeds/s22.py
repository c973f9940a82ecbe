property = 'C22'
pkg = 'internal/storage'
edits = [
  ('internal/storage/geo_cache.go',
   'import (\n\t"sync"\n',
   'import (\n\t"strings"\n\t"sync"\n'),
  ('internal/storage/geo_cache.go',
   '\tif rb, ok := cache.cacheByPhone[phone]; ok {\n\t\treturn rb\n\t}\n\trb := container.NewRingBuffer(RingCapacity)\n\tcache.cacheByPhone[phone] = rb\n\treturn cache.cacheByPhone[phone]',
   '\tkey := geoKey(phone)\n\tif rb, ok := cache.cacheByPhone[key]; ok {\n\t\treturn rb\n\t}\n\trb := container.NewRingBuffer(RingCapacity)\n\tcache.cacheByPhone[key] = rb\n\treturn rb'),
  ('internal/storage/geo_cache.go',
   '\tdelete(cache.cacheByPhone, phone)\n}',
   '\tdelete(cache.cacheByPhone, geoKey(phone))\n}\n\n// 去掉手机号的前导0\nfunc geoKey(phone string) string {\n\treturn strings.TrimLeft(phone, "0")\n}'),
]
needs = 'two registered phones that differ only in leading zeros (a 2013 and a 2019 terminal)'
breaks = 'the two devices share one location history: a report of one overwrites the latest location of the other'
demo = r'''
package storage

import (
	"testing"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
)

func TestDemo(t *testing.T) {
	g := GetGeoCache()
	g.GetGeoRingByPhone("013800138000").Write(&model.DeviceGeo{Phone: "013800138000"})
	g.GetGeoRingByPhone("00000000013800138000").Write(&model.DeviceGeo{Phone: "00000000013800138000"})
	d, err := g.GetGeoLatestByPhone("013800138000")
	if err != nil || d.Phone != "013800138000" {
		t.Fatal(d, err)
	}
}
'''
