// Function tables: each node's copy of the code under test.
#pragma once
#include "sim.h"
extern "C" {
#include <rbus.h>
}
#define API_LIST(X) \
 X(rbus_open) X(rbus_close) X(rbus_regDataElements) X(rbus_unregDataElements) X(rbus_get) X(rbus_getExt) X(rbus_getInt) X(rbus_getStr) \
 X(rbus_set) X(rbus_setMulti) X(rbus_setMultiExt) X(rbus_setInt) X(rbus_setStr) X(rbus_setCommit) X(rbusTable_addRow) X(rbusTable_removeRow) \
 X(rbusTable_registerRow) X(rbusTable_unregisterRow) X(rbusTable_getRowNames) X(rbusTable_freeRowNames) X(rbusElementInfo_get) X(rbusElementInfo_free) \
 X(rbusEvent_Subscribe) X(rbusEvent_SubscribeEx) X(rbusEvent_SubscribeAsync) X(rbusEvent_SubscribeExAsync) X(rbusEvent_Unsubscribe) X(rbusEvent_UnsubscribeEx) \
 X(rbusEvent_SubscribeRawData) X(rbusEvent_UnsubscribeRawData) X(rbusEvent_SubscribeExRawData) X(rbusEvent_UnsubscribeExRawData) X(rbusEvent_Publish) X(rbusEvent_PublishRawData) X(rbusEvent_IsSubscriptionExist) \
 X(rbusMethod_Invoke) X(rbusMethod_InvokeAsync) X(rbusMethod_SendAsyncResponse) X(rbus_createSession) X(rbus_getCurrentSession) X(rbus_closeSession) \
 X(rbus_openDirect) X(rbus_closeDirect) X(rbus_discoverComponentName) X(rbus_discoverComponentDataElements) X(rbus_checkStatus) X(rbusHandle_SetTraceContextFromString) X(rbusHandle_GetTraceContextAsString) X(rbusHandle_ClearTraceContext) X(rbus_registerDynamicTableSyncHandler) \
 X(rbusHandle_ConfigSetTimeout) X(rbusHandle_ConfigGetTimeout) X(rbusHandle_ConfigSetMultiTimeout) X(rbusHandle_ConfigSubscribeTimeout) X(rbusHandle_ConfigGetMultiTimeout) X(rbusHandle_ConfigTimeoutValues) X(rbus_setLogLevel) X(rbus_registerLogHandler) \
 X(rbusValue_Init) X(rbusValue_Release) X(rbusValue_Retain) X(rbusValue_SetInt32) X(rbusValue_GetInt32) X(rbusValue_SetString) X(rbusValue_GetString) X(rbusValue_GetType) \
 X(rbusValue_ToString) X(rbusValue_SetBytes) X(rbusValue_GetBytes) X(rbusValue_InitInt32) X(rbusValue_InitString) X(rbusValue_InitBytes) X(rbusValue_Compare) X(rbusValue_SetBoolean) X(rbusValue_GetBoolean) \
 X(rbusValue_SetChar) X(rbusValue_GetChar) X(rbusValue_SetByte) X(rbusValue_GetByte) X(rbusValue_SetInt8) X(rbusValue_GetInt8) X(rbusValue_SetUInt8) X(rbusValue_GetUInt8) X(rbusValue_SetInt16) X(rbusValue_GetInt16) X(rbusValue_SetUInt16) X(rbusValue_GetUInt16) X(rbusValue_SetUInt64) X(rbusValue_GetUInt64) X(rbusValue_SetSingle) X(rbusValue_GetSingle) X(rbusValue_SetTime) X(rbusValue_GetTime) X(rbusValue_SetProperty) X(rbusValue_GetProperty) X(rbusValue_SetObject) X(rbusValue_GetObject) X(rbusObject_InitMultiInstance) X(rbusObject_GetChildren) X(rbusObject_SetChildren) X(rbusObject_GetNext) X(rbusObject_SetNext) X(rbusObject_GetType) \
 X(rbusValue_SetUInt32) X(rbusValue_GetUInt32) X(rbusValue_SetInt64) X(rbusValue_GetInt64) X(rbusValue_SetDouble) X(rbusValue_GetDouble) \
 X(rbusProperty_Init) X(rbusProperty_Release) X(rbusProperty_Retain) X(rbusProperty_GetName) X(rbusProperty_GetValue) X(rbusProperty_SetValue) X(rbusProperty_SetName) X(rbusProperty_GetNext) X(rbusProperty_SetNext) X(rbusProperty_Append) X(rbusProperty_Count) \
 X(rbusObject_Init) X(rbusObject_Release) X(rbusObject_Retain) X(rbusObject_GetName) X(rbusObject_GetValue) X(rbusObject_SetValue) X(rbusObject_GetProperty) X(rbusObject_GetProperties) X(rbusObject_SetProperty) X(rbusObject_SetProperties) \
 X(rbusFilter_InitRelation) X(rbusFilter_InitLogic) X(rbusFilter_Release) X(rbusFilter_Apply)
extern "C" {
#include <rbus_message.h>
}
#define API_LIST2(X) X(rbusMessage_AddListener) X(rbusMessage_RemoveListener) X(rbusMessage_RemoveAllListeners) X(rbusMessage_Send)
struct Api {
#define X(n) decltype(&::n) n;
 API_LIST(X) API_LIST2(X)
#undef X
 int (*router_main)(int,char**); int (*session_main)(int,char**);
};
struct LibCopy { void* dl; Api* api; char** progname; };
std::vector<LibCopy>& libPool(int k);
struct OpGuard { void* rec; i64 t0; OpGuard(const std::string& what,i64 limit); ~OpGuard(); i64 elapsed(){ return g_now-t0; } };
