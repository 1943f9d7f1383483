//go:build race

package vk

const raceBuild = true
