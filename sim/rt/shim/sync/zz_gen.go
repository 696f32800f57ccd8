// Code generated by shimgen. DO NOT EDIT.

package sync
