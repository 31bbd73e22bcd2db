package main

import "github.com/blnkfinance/blnk/internal/verifx/pgfake"

type (
	stmt   = pgfake.StmtInfo
	action = pgfake.Action
)

var pgErr = pgfake.Err
