package launcher

// ConfigOf gives the verification harness what the package's own tests use.
func ConfigOf(l Launcher) Config { return l.config }

// NewConfigForVerif is newConfig.
func NewConfigForVerif(opts ...Option) Config { return newConfig(opts...) }
