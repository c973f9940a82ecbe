// Package zzgin stands in for github.com/gin-gonic/gin: it records the routes and
// lets a harness call a handler with a given path parameter and bound body.
package zzgin

import "strings"

const (
	ReleaseMode = "release"
	DebugMode   = "debug"
	TestMode    = "test"
)

type H map[string]any

type HandlerFunc func(*Context)

type Context struct {
	Params map[string]string
	// Bind fills the target of ShouldBind*/Bind*; nil means success without change.
	BindFn  func(obj any) error
	Codes   []int
	Bodies  []any
	aborted bool
	sent    bool // header written, body not
	status  int  // set by Status, not written yet
	hs      []HandlerFunc
	next    int
	keys    map[string]any
	route   string
}

func (c *Context) Param(k string) string {
	return c.Params[k]
}
func (c *Context) Query(k string) string { return "" }
func (c *Context) bind(o any) error {
	if c.BindFn != nil {
		return c.BindFn(o)
	}
	return nil
}
func (c *Context) ShouldBind(o any) error     { return c.bind(o) }
func (c *Context) ShouldBindJSON(o any) error { return c.bind(o) }
func (c *Context) Bind(o any) error           { return c.mustBind(o) }
func (c *Context) BindJSON(o any) error       { return c.mustBind(o) }
func (c *Context) mustBind(o any) error {
	err := c.bind(o)
	if err != nil {
		c.AbortWithStatus(400)
	}
	return err
}
func (c *Context) JSON(code int, obj any) {
	if c.sent { // the status went out already, only the body follows
		c.sent = false
		c.Bodies[len(c.Bodies)-1] = obj
		return
	}
	c.status = 0
	c.Codes = append(c.Codes, code)
	c.Bodies = append(c.Bodies, obj)
}
func (c *Context) IndentedJSON(code int, obj any)      { c.JSON(code, obj) }
func (c *Context) PureJSON(code int, obj any)          { c.JSON(code, obj) }
func (c *Context) SecureJSON(code int, obj any)        { c.JSON(code, obj) }
func (c *Context) AsciiJSON(code int, obj any)         { c.JSON(code, obj) }
func (c *Context) String(code int, f string, v ...any) { c.JSON(code, f) }
func (c *Context) Data(code int, _ string, b []byte)   { c.JSON(code, b) }
func (c *Context) Status(code int)                     { c.status = code }
func (c *Context) Header(k, v string)                  {}
func (c *Context) GetHeader(k string) string           { return "" }
func (c *Context) FullPath() string                    { return c.route }
func (c *Context) DefaultQuery(k, d string) string     { return d }
func (c *Context) GetQuery(k string) (string, bool)    { return "", false }
func (c *Context) Error(err error) error               { return err }
func (c *Context) Set(k string, v any) {
	if c.keys == nil {
		c.keys = map[string]any{}
	}
	c.keys[k] = v
}
func (c *Context) Get(k string) (any, bool) {
	v, ok := c.keys[k]
	return v, ok
}
func (c *Context) MustGet(k string) any {
	v, ok := c.keys[k]
	if !ok {
		panic("Key \"" + k + "\" does not exist")
	}
	return v
}
func (c *Context) GetString(k string) string {
	s, _ := c.keys[k].(string)
	return s
}
func (c *Context) Abort() { c.aborted = true }
func (c *Context) AbortWithStatus(code int) {
	c.JSON(code, nil)
	c.sent = true
	c.Abort()
}
func (c *Context) AbortWithError(code int, err error) error {
	c.AbortWithStatus(code)
	return err
}
func (c *Context) IsAborted() bool { return c.aborted }
func (c *Context) AbortWithStatusJSON(code int, obj any) {
	c.Abort()
	c.JSON(code, obj)
}

// Next runs the remaining handlers.
func (c *Context) Next() {
	for c.next < len(c.hs) && !c.aborted {
		h := c.hs[c.next]
		c.next++
		h(c)
	}
}

type Route struct {
	Method, Path string
	Handlers     []HandlerFunc
}

type IRoutes interface {
	Use(...HandlerFunc) IRoutes
	Handle(string, string, ...HandlerFunc) IRoutes
	GET(string, ...HandlerFunc) IRoutes
	PUT(string, ...HandlerFunc) IRoutes
	POST(string, ...HandlerFunc) IRoutes
	DELETE(string, ...HandlerFunc) IRoutes
	PATCH(string, ...HandlerFunc) IRoutes
}

type IRouter interface {
	IRoutes
	Group(string, ...HandlerFunc) *RouterGroup
}

type HandlersChain []HandlerFunc

type Engine struct {
	prefix string
	mws    []HandlerFunc
}

type RouterGroup = Engine

var Routes []Route

func SetMode(string)        {}
func Default() *Engine      { return &Engine{} }
func New() *Engine          { return &Engine{} }
func Recovery() HandlerFunc { return func(*Context) {} }
func Logger() HandlerFunc   { return func(*Context) {} }

func (e *Engine) all(hs []HandlerFunc) []HandlerFunc {
	return append(append([]HandlerFunc{}, e.mws...), hs...)
}
func (e *Engine) Use(hs ...HandlerFunc) IRoutes {
	e.mws = append(e.mws, hs...)
	return e
}
func (e *Engine) Group(p string, hs ...HandlerFunc) *Engine {
	return &Engine{prefix: join(e.prefix, p), mws: e.all(hs)}
}
func (e *Engine) Handle(m, p string, hs ...HandlerFunc) IRoutes {
	Routes = append(Routes, Route{m, join(e.prefix, p), e.all(hs)})
	return e
}
func (e *Engine) GET(p string, hs ...HandlerFunc) IRoutes    { return e.Handle("GET", p, hs...) }
func (e *Engine) PUT(p string, hs ...HandlerFunc) IRoutes    { return e.Handle("PUT", p, hs...) }
func (e *Engine) POST(p string, hs ...HandlerFunc) IRoutes   { return e.Handle("POST", p, hs...) }
func (e *Engine) DELETE(p string, hs ...HandlerFunc) IRoutes { return e.Handle("DELETE", p, hs...) }
func (e *Engine) PATCH(p string, hs ...HandlerFunc) IRoutes  { return e.Handle("PATCH", p, hs...) }
func (e *Engine) Run(addr ...string) error                   { return nil }

func join(a, b string) string {
	if b == "" || b == "/" && a != "" {
		return a
	}
	return strings.TrimSuffix(a, "/") + "/" + strings.TrimPrefix(b, "/")
}

// Call runs the handler of method and path template.
func Call(method, path string, c *Context) bool {
	for _, r := range Routes {
		if r.Method == method && strings.TrimSuffix(r.Path, "/") == path {
			c.hs, c.next, c.route = r.Handlers, 0, r.Path
			c.Next()
			if len(c.Codes) == 0 && c.status != 0 {
				c.JSON(c.status, nil)
			}
			return true
		}
	}
	return false
}
