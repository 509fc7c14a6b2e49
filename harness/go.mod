module verif/harness

go 1.26.0

require (
	github.com/aclindsa/ofxgo v0.0.0
	github.com/aclindsa/xml v0.0.0-20201125035057-bbd5c9ec99ac
	golang.org/x/text v0.3.8
	pgregory.net/rapid v1.3.0
)

replace github.com/aclindsa/ofxgo => /repo
