// Package handlers holds the fixed handlers the in-process route checks register.
// Handler HN answers with status 200+N, so that a document entry tells which handler it describes.
package handlers

import "github.com/gin-gonic/gin"

// H0 documents itself as handler 0.
func H0(c *gin.Context) {
	c.Status(200)
}

// H1 documents itself as handler 1.
func H1(c *gin.Context) {
	c.Status(201)
}

// H2 documents itself as handler 2.
func H2(c *gin.Context) {
	c.Status(202)
}

// H3 documents itself as handler 3.
func H3(c *gin.Context) {
	c.Status(203)
}

// H4 documents itself as handler 4.
func H4(c *gin.Context) {
	c.Status(204)
}

// H5 documents itself as handler 5.
func H5(c *gin.Context) {
	c.Status(205)
}

// H6 documents itself as handler 6.
func H6(c *gin.Context) {
	c.Status(206)
}

// H7 documents itself as handler 7.
func H7(c *gin.Context) {
	c.Status(207)
}

// H8 documents itself as handler 8.
func H8(c *gin.Context) {
	c.Status(208)
}

// H9 documents itself as handler 9.
func H9(c *gin.Context) {
	c.Status(209)
}

// H10 documents itself as handler 10.
func H10(c *gin.Context) {
	c.Status(210)
}

// H11 documents itself as handler 11.
func H11(c *gin.Context) {
	c.Status(211)
}

// All lists them.
var All = []gin.HandlerFunc{H0, H1, H2, H3, H4, H5, H6, H7, H8, H9, H10, H11}
