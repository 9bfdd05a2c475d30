module github.com/spf13/viper

go 1.23
