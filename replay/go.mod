module replay

go 1.21

require github.com/infobloxopen/go-trees v0.0.0

require github.com/pmezard/go-difflib v1.0.0 // indirect

replace github.com/infobloxopen/go-trees => /repo
