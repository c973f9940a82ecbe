property = 'C25'
pkg = 'internal/storage'
edits = [
  ('internal/storage/geo_cache.go',
   'func (cache *GeoCache) GetGeoRingByPhone(phone string) *container.RingBuffer {\n\tcache.mutex.Lock()\n\tdefer cache.mutex.Unlock()\n\tif rb, ok',
   'func (cache *GeoCache) GetGeoRingByPhone(phone string) *container.RingBuffer {\n\tif rb, ok := cache.cacheByPhone[phone]; ok {\n\t\treturn rb // 命中时不加锁\n\t}\n\tcache.mutex.Lock()\n\tdefer cache.mutex.Unlock()\n\tif rb, ok'),
]
needs = 'a location lookup on one goroutine while another one inserts or deletes a record'
breaks = 'the lookup reads the map unsynchronised: the Go runtime aborts the process (concurrent map read and map write)'
demo = r'''
package storage

import (
	"fmt"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	g := GetGeoCache()
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				p := fmt.Sprint(k, i%50)
				g.GetGeoRingByPhone(p)
				if i%3 == 0 {
					g.DelGeoByPhone(p)
				}
			}
		}(k)
	}
	wg.Wait()
}
'''
