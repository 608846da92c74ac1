package prog

// The stub modules have the declarations of the real ones that programs use,
// with the same import paths, names and signatures. Loading a package that
// imports them takes milliseconds instead of seconds.

const ginStub = `// Package gin is a stand-in with gin's signatures.
package gin

type Context struct{ Keys map[string]any }

type HandlerFunc func(*Context)

type H map[string]any

type Error struct{ Err error }

func (e *Error) Error() string { return e.Err.Error() }

type FileHeader struct{ Filename string }

func (c *Context) JSON(code int, obj any)                              {}
func (c *Context) IndentedJSON(code int, obj any)                      {}
func (c *Context) XML(code int, obj any)                               {}
func (c *Context) YAML(code int, obj any)                              {}
func (c *Context) ProtoBuf(code int, obj any)                          {}
func (c *Context) String(code int, format string, values ...any)       {}
func (c *Context) Data(code int, contentType string, data []byte)      {}
func (c *Context) Status(code int)                                     {}
func (c *Context) AbortWithStatus(code int)                            {}
func (c *Context) AbortWithStatusJSON(code int, jsonObj any)           {}
func (c *Context) AbortWithError(code int, err error) *Error           { return nil }
func (c *Context) Header(key, value string)                            {}
func (c *Context) Query(key string) (value string)                     { return }
func (c *Context) GetQuery(key string) (string, bool)                  { return "", false }
func (c *Context) QueryArray(key string) (values []string)             { return }
func (c *Context) GetQueryArray(key string) (values []string, ok bool) { return }
func (c *Context) QueryMap(key string) (dicts map[string]string)       { return }
func (c *Context) GetQueryMap(key string) (map[string]string, bool)    { return nil, false }
func (c *Context) PostForm(key string) (value string)                  { return }
func (c *Context) GetPostForm(key string) (string, bool)               { return "", false }
func (c *Context) PostFormArray(key string) (values []string)          { return }
func (c *Context) GetPostFormArray(key string) (values []string, ok bool) {
	return
}
func (c *Context) PostFormMap(key string) (dicts map[string]string)    { return }
func (c *Context) GetPostFormMap(key string) (map[string]string, bool) { return nil, false }
func (c *Context) FormFile(name string) (*FileHeader, error)           { return nil, nil }
func (c *Context) GetHeader(key string) string                         { return "" }
func (c *Context) Bind(obj any) error                                  { return nil }
func (c *Context) BindJSON(obj any) error                              { return nil }
func (c *Context) BindXML(obj any) error                               { return nil }
func (c *Context) BindYAML(obj any) error                              { return nil }
func (c *Context) BindQuery(obj any) error                             { return nil }
func (c *Context) BindHeader(obj any) error                            { return nil }
func (c *Context) ShouldBind(obj any) error                            { return nil }
func (c *Context) ShouldBindJSON(obj any) error                        { return nil }
func (c *Context) ShouldBindXML(obj any) error                         { return nil }
func (c *Context) ShouldBindYAML(obj any) error                        { return nil }
func (c *Context) ShouldBindQuery(obj any) error                       { return nil }
func (c *Context) ShouldBindHeader(obj any) error                      { return nil }
func (c *Context) Param(key string) string                             { return "" }
func (c *Context) Next()                                               {}
func (c *Context) Abort()                                              {}
func (c *Context) IsAborted() bool                                     { return false }
func (c *Context) Set(key string, value any)                           {}
func (c *Context) Get(key string) (value any, exists bool)             { return }
func (c *Context) GetString(key string) (s string)                     { return }
func (c *Context) Copy() *Context                                      { return c }
func (c *Context) Redirect(code int, location string)                  {}
`

const uuidStub = `// Package uuid is a stand-in with uuid's type.
package uuid

type UUID [16]byte

var Nil UUID
`
