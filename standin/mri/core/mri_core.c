/* Stand-in for mri/core (adamgreen/mri is an empty submodule in /repo).
   Written from the observable behaviour of the mri core linked into /repo/bins/lin64/CrashDebug and compared
   against that binary (see /verif/conformance). Only what CrashDebug reaches is implemented. */
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <buffer.h>
#include <core.h>
#include <gdb_console.h>
#include <memory.h>
#include <mri.h>
#include <packet.h>
#include <platforms.h>
#include <semihost.h>
#include <token.h>
#include <try_catch.h>

int __mriExceptionCode;

#define HANDLER_RETURN_RESUME_PROGRAM     1
#define HANDLER_RETURN_RETURN_IMMEDIATELY 2
#define HANDLER_RETURN_SKIPPED_OVER_BREAK 4

#define MRI_FLAGS_SUCCESSFUL_INIT  1
#define MRI_FLAGS_FIRST_EXCEPTION  2
#define MRI_FLAGS_SEMIHOST_CTRL_C  4
#define MRI_FLAGS_SEMIHOST_HANDLED 8

static struct
{
    Packet   packet;
    Buffer   buffer;
    uint32_t flags;
    int      semihostReturnCode;
    int      semihostErrno;
    uint8_t  signalValue;
} g_mri;

static const char g_hex[] = "0123456789abcdef";

static int hexNibble(char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}

/* ---------------------------------------------------------------- buffer */
void Buffer_Init(Buffer* p, char* pStart, size_t size)
{
    p->pStart = pStart;
    p->pEnd = pStart + size;
    Buffer_Reset(p);
}
void Buffer_Reset(Buffer* p) { p->pCurrent = p->pStart; }
void Buffer_SetEndOfBuffer(Buffer* p) { p->pEnd = p->pCurrent; }
int Buffer_OverrunDetected(Buffer* p) { return p->pCurrent > p->pEnd; }
size_t Buffer_BytesLeft(Buffer* p) { return Buffer_OverrunDetected(p) ? 0 : (size_t)(p->pEnd - p->pCurrent); }
size_t Buffer_GetLength(Buffer* p) { return (size_t)(p->pCurrent - p->pStart); }
char* Buffer_GetArray(Buffer* p) { return p->pStart; }

static void overrun(Buffer* p)
{
    p->pCurrent = p->pEnd + 1;
    setExceptionCode(bufferOverrunException);
}
void Buffer_WriteChar(Buffer* p, char c)
{
    if (Buffer_BytesLeft(p) < 1) { overrun(p); return; }
    *p->pCurrent++ = c;
}
char Buffer_ReadChar(Buffer* p)
{
    if (Buffer_BytesLeft(p) < 1) { overrun(p); return '\0'; }
    return *p->pCurrent++;
}
void Buffer_WriteByteAsHex(Buffer* p, uint8_t b)
{
    if (Buffer_BytesLeft(p) < 2) { overrun(p); return; }
    *p->pCurrent++ = g_hex[b >> 4];
    *p->pCurrent++ = g_hex[b & 15];
}
uint8_t Buffer_ReadByteAsHex(Buffer* p)
{
    int hi, lo;
    if (Buffer_BytesLeft(p) < 2) { overrun(p); return 0; }
    hi = hexNibble(p->pCurrent[0]);
    if (hi >= 0) lo = hexNibble(p->pCurrent[1]);
    if (hi < 0 || lo < 0) { setExceptionCode(invalidHexDigitException); return 0; }
    p->pCurrent += 2;
    return (uint8_t)((hi << 4) | lo);
}
void Buffer_WriteSizedString(Buffer* p, const char* s, size_t n)
{
    if (Buffer_BytesLeft(p) < n) { overrun(p); return; }
    memcpy(p->pCurrent, s, n);
    p->pCurrent += n;
}
void Buffer_WriteString(Buffer* p, const char* s) { Buffer_WriteSizedString(p, s, strlen(s)); }
uint32_t Buffer_ReadUIntegerAsHex(Buffer* p)
{
    uint32_t value = 0;
    int      digits = 0;
    while (Buffer_BytesLeft(p) > 0)
    {
        int n = hexNibble(*p->pCurrent);
        if (n < 0) break;
        p->pCurrent++;
        value = (value << 4) | (uint32_t)n;
        digits++;
    }
    if (!digits) { setExceptionCode(invalidValueException); return 0; }
    return value;
}
void Buffer_WriteUIntegerAsHex(Buffer* p, uint32_t v)
{
    int shift = 24;
    while (shift > 0 && ((v >> shift) & 0xFF) == 0) shift -= 8;
    for ( ; shift >= 0 ; shift -= 8) Buffer_WriteByteAsHex(p, (uint8_t)(v >> shift));
}
int Buffer_IsNextCharEqualTo(Buffer* p, char c)
{
    if (Buffer_BytesLeft(p) < 1 || *p->pCurrent != c) return 0;
    p->pCurrent++;
    return 1;
}
int32_t Buffer_ReadIntegerAsHex(Buffer* p)
{
    int      negative = Buffer_IsNextCharEqualTo(p, '-');
    uint32_t value = Buffer_ReadUIntegerAsHex(p);
    return negative ? -(int32_t)value : (int32_t)value;
}
void Buffer_WriteIntegerAsHex(Buffer* p, int32_t v)
{
    if (v < 0) { Buffer_WriteChar(p, '-'); Buffer_WriteUIntegerAsHex(p, 0U - (uint32_t)v); }
    else Buffer_WriteUIntegerAsHex(p, (uint32_t)v);
}
int Buffer_MatchesString(Buffer* p, const char* s, size_t n)
{
    if (Buffer_BytesLeft(p) < n || strncmp(p->pCurrent, s, n) != 0) return 0;
    if (Buffer_BytesLeft(p) > n && p->pCurrent[n] != ':') return 0;
    p->pCurrent += n;
    return 1;
}

/* ---------------------------------------------------------------- token */
void Token_Init(Token* p) { Token_InitWith(p, " "); }
void Token_InitWith(Token* p, const char* s) { memset(p, 0, sizeof(*p)); p->pTokenSeparators = s; }
void Token_Copy(Token* pCopy, Token* pOriginal) { *pCopy = *pOriginal; }
void Token_SplitString(Token* p, const char* s)
{
    strncpy(p->copyOfString, s, sizeof(p->copyOfString) - 1);
    p->tokenCount = 0;
}
size_t Token_GetTokenCount(Token* p) { return p->tokenCount; }
const char* Token_GetToken(Token* p, size_t i) { return i < p->tokenCount ? p->tokenPointers[i] : NULL; }
const char* Token_MatchingString(Token* p, const char* s) { (void)p; (void)s; return NULL; }
const char* Token_MatchingStringPrefix(Token* p, const char* s) { (void)p; (void)s; return NULL; }

/* ---------------------------------------------------------------- packet */
static char receive(void) { return (char)Platform_CommReceiveChar(); }

void Packet_GetFromGDB(Packet* pPacket, Buffer* pBuffer)
{
    memset(pPacket, 0, sizeof(*pPacket));
    pPacket->pBuffer = pBuffer;
    for (;;)
    {
        char          c, hiChar, loChar;
        unsigned char sum = 0;
        unsigned char expected;

        while (pPacket->lastChar != '$')
            pPacket->lastChar = receive();
        Buffer_Reset(pBuffer);
        c = receive();
        while (Buffer_BytesLeft(pBuffer) > 0 && c != '#' && c != '$')
        {
            sum = (unsigned char)(sum + (unsigned char)c);
            Buffer_WriteChar(pBuffer, c);
            c = receive();
        }
        pPacket->lastChar = c;
        if (c != '#')
            continue;
        hiChar = receive();
        loChar = receive();
        pPacket->lastChar = loChar;
        {
            int hi = hexNibble(hiChar);
            int lo = hexNibble(loChar);
            expected = (hi < 0 || lo < 0) ? (unsigned char)~sum : (unsigned char)((hi << 4) | lo);
        }
        if (Platform_CommHasReceiveData())
            continue;                       /* Only the most recent packet is answered. */
        if (expected == sum)
        {
            Platform_CommSendChar('+');
            Buffer_SetEndOfBuffer(pBuffer);
            Buffer_Reset(pBuffer);
            return;
        }
        Platform_CommSendChar('-');
    }
}

void Packet_SendToGDB(Packet* pPacket, Buffer* pBuffer)
{
    char c;
    memset(pPacket, 0, sizeof(*pPacket));
    pPacket->pBuffer = pBuffer;
    do
    {
        unsigned char sum = 0;
        char*         p = pBuffer->pStart;
        Platform_CommSendChar('$');
        for ( ; p < pBuffer->pEnd ; p++)
        {
            sum = (unsigned char)(sum + (unsigned char)*p);
            Platform_CommSendChar(*p);
        }
        Platform_CommSendChar('#');
        Platform_CommSendChar(g_hex[sum >> 4]);
        Platform_CommSendChar(g_hex[sum & 15]);
        do
            c = receive();
        while (c == 3);
    } while (c != '+' && c != '$');
}

/* ---------------------------------------------------------------- console */
void WriteStringToGdbConsole(const char* s)
{
    Buffer* p = GetInitializedBuffer();
    Buffer_WriteChar(p, 'O');
    while (*s)
        Buffer_WriteByteAsHex(p, (uint8_t)*s++);
    if (!Buffer_OverrunDetected(p))
        SendPacketToGdb();
}
void WriteHexValueToGdbConsole(uint32_t value)
{
    char   text[2 + 8 + 1];
    Buffer b;
    Buffer_Init(&b, text, sizeof(text));
    Buffer_WriteString(&b, "0x");
    Buffer_WriteUIntegerAsHex(&b, value);
    Buffer_WriteChar(&b, '\0');
    WriteStringToGdbConsole(text);
}

/* ---------------------------------------------------------------- memory */
static int sizedAccess(uintptr_t address, uint32_t count)
{
    return (count == 2 && !(address & 1)) ? 2 : (count == 4 && !(address & 3)) ? 4 : 1;
}
uint32_t ReadMemoryIntoHexBuffer(Buffer* p, const void* pv, uint32_t count)
{
    const uint8_t* pb = (const uint8_t*)pv;
    uint32_t       done = 0;
    Platform_WasMemoryFaultEncountered();
    switch (sizedAccess((uintptr_t)pv, count))
    {
    case 2:
        {
            uint16_t v = Platform_MemRead16(pv);
            if (Platform_WasMemoryFaultEncountered()) return 0;
            Buffer_WriteByteAsHex(p, (uint8_t)v);
            Buffer_WriteByteAsHex(p, (uint8_t)(v >> 8));
            return 2;
        }
    case 4:
        {
            uint32_t v = Platform_MemRead32(pv);
            int      i;
            if (Platform_WasMemoryFaultEncountered()) return 0;
            for (i = 0 ; i < 4 ; i++) Buffer_WriteByteAsHex(p, (uint8_t)(v >> (8 * i)));
            return 4;
        }
    }
    while (done < count)
    {
        uint8_t v = Platform_MemRead8(pb++);
        if (Platform_WasMemoryFaultEncountered()) break;
        Buffer_WriteByteAsHex(p, v);
        done++;
    }
    return done;
}

typedef uint8_t (*NextByte)(Buffer*);
static uint8_t nextBinary(Buffer* p)
{
    char c = Buffer_ReadChar(p);
    if (c == '}') c = (char)(Buffer_ReadChar(p) ^ 0x20);
    return (uint8_t)c;
}
static int writeMemory(Buffer* p, void* pv, uint32_t count, NextByte next)
{
    uint8_t* pb = (uint8_t*)pv;
    Platform_WasMemoryFaultEncountered();
    clearExceptionCode();
    switch (sizedAccess((uintptr_t)pv, count))
    {
    case 2:
        {
            uint16_t v = next(p);
            v = (uint16_t)(v | ((uint16_t)next(p) << 8));
            if (getExceptionCode()) return 0;
            Platform_MemWrite16(pv, v);
            return !Platform_WasMemoryFaultEncountered();
        }
    case 4:
        {
            uint32_t v = 0;
            int      i;
            for (i = 0 ; i < 4 ; i++) v |= (uint32_t)next(p) << (8 * i);
            if (getExceptionCode()) return 0;
            Platform_MemWrite32(pv, v);
            return !Platform_WasMemoryFaultEncountered();
        }
    }
    while (count-- > 0)
    {
        uint8_t v = next(p);
        if (getExceptionCode()) return 0;
        Platform_MemWrite8(pb++, v);
        if (Platform_WasMemoryFaultEncountered()) return 0;
    }
    return 1;
}
int WriteHexBufferToMemory(Buffer* p, void* pv, uint32_t count) { return writeMemory(p, pv, count, Buffer_ReadByteAsHex); }
int WriteBinaryBufferToMemory(Buffer* p, void* pv, uint32_t count) { return writeMemory(p, pv, count, nextBinary); }

/* ---------------------------------------------------------------- commands */
typedef struct { uint32_t address; uint32_t length; } AddressLength;

static void expectChar(Buffer* p, char c)
{
    if (!Buffer_IsNextCharEqualTo(p, c)) setExceptionCode(invalidArgumentException);
}
static uint32_t readUInt(Buffer* p)
{
    uint32_t v;
    clearExceptionCode();
    v = Buffer_ReadUIntegerAsHex(p);
    if (getExceptionCode()) setExceptionCode(invalidArgumentException);
    return v;
}
static int readAddressLength(Buffer* p, AddressLength* a, int colon)
{
    a->address = readUInt(p);
    if (getExceptionCode()) return 0;
    clearExceptionCode();
    expectChar(p, ',');
    if (getExceptionCode()) return 0;
    a->length = readUInt(p);
    if (getExceptionCode()) return 0;
    if (colon) expectChar(p, ':');
    return getExceptionCode() == 0;
}

static uint32_t sendTStop(void)
{
    Buffer* p = GetInitializedBuffer();
    clearExceptionCode();
    Buffer_WriteChar(p, 'T');
    Buffer_WriteByteAsHex(p, GetSignalValue());
    Platform_WriteTResponseRegistersToBuffer(p);
    SendPacketToGdb();
    return HANDLER_RETURN_RETURN_IMMEDIATELY;
}
static uint32_t resume(void)
{
    uint32_t handler = HANDLER_RETURN_RESUME_PROGRAM | HANDLER_RETURN_RETURN_IMMEDIATELY;
    if (!Platform_WasProgramCounterModifiedByUser() &&
        Platform_TypeOfCurrentInstruction() == MRI_PLATFORM_INSTRUCTION_HARDCODED_BREAKPOINT)
    {
        Platform_AdvanceProgramCounterToNextInstruction();
        handler |= HANDLER_RETURN_SKIPPED_OVER_BREAK;
    }
    return handler;
}
static uint32_t handleContinue(void)
{
    uint32_t address;
    clearExceptionCode();
    address = Buffer_ReadUIntegerAsHex(GetBuffer());
    if (!getExceptionCode()) Platform_SetProgramCounter(address);
    clearExceptionCode();
    return resume();
}
static uint32_t handleContinueWithSignal(void)
{
    Buffer* p = GetBuffer();
    clearExceptionCode();
    readUInt(p);
    if (getExceptionCode()) { PrepareStringResponse(MRI_ERROR_INVALID_ARGUMENT); return 0; }
    if (Buffer_IsNextCharEqualTo(p, ';'))
    {
        uint32_t address = readUInt(p);
        if (getExceptionCode()) { PrepareStringResponse(MRI_ERROR_INVALID_ARGUMENT); return 0; }
        Platform_SetProgramCounter(address);
    }
    return resume();
}
static uint32_t handleStep(void)
{
    uint32_t r = handleContinue();
    if (r & HANDLER_RETURN_RESUME_PROGRAM) Platform_EnableSingleStep();
    return r;
}
static uint32_t handleStepWithSignal(void)
{
    uint32_t r = handleContinueWithSignal();
    if (r & HANDLER_RETURN_RESUME_PROGRAM) Platform_EnableSingleStep();
    return r;
}
static uint32_t handleFileIO(void)
{
    Buffer* p = GetBuffer();
    int32_t returnCode, err = 0;
    clearExceptionCode();
    returnCode = Buffer_ReadIntegerAsHex(p);
    if (!getExceptionCode() && Buffer_IsNextCharEqualTo(p, ','))
    {
        err = Buffer_ReadIntegerAsHex(p);
        if (!getExceptionCode() && Buffer_IsNextCharEqualTo(p, ',') && Buffer_IsNextCharEqualTo(p, 'C'))
            RecordControlCFlagSentFromGdb(1);
    }
    clearExceptionCode();
    SetSemihostReturnValues(returnCode, err);
    return HANDLER_RETURN_RESUME_PROGRAM | HANDLER_RETURN_RETURN_IMMEDIATELY;
}
static uint32_t handleRegisterRead(void)
{
    Platform_CopyContextToBuffer(GetInitializedBuffer());
    return 0;
}
static uint32_t handleRegisterWrite(void)
{
    Buffer* p = GetBuffer();
    clearExceptionCode();
    Platform_CopyContextFromBuffer(p);
    PrepareStringResponse(Buffer_OverrunDetected(p) ? MRI_ERROR_BUFFER_OVERRUN : "OK");
    return 0;
}
static uint32_t handleMemoryRead(void)
{
    AddressLength a;
    uint32_t      n;
    if (!readAddressLength(GetBuffer(), &a, 0)) { PrepareStringResponse(MRI_ERROR_INVALID_ARGUMENT); return 0; }
    InitBuffer();
    n = ReadMemoryIntoHexBuffer(GetBuffer(), (void*)(uintptr_t)a.address, a.length);
    if (n == 0) PrepareStringResponse(MRI_ERROR_MEMORY_ACCESS_FAILURE);
    return 0;
}
static uint32_t memoryWrite(int (*write)(Buffer*, void*, uint32_t))
{
    Buffer*       p = GetBuffer();
    AddressLength a;
    if (!readAddressLength(p, &a, 1)) { PrepareStringResponse(MRI_ERROR_INVALID_ARGUMENT); return 0; }
    if (write(p, (void*)(uintptr_t)a.address, a.length)) PrepareStringResponse("OK");
    else PrepareStringResponse(Buffer_OverrunDetected(p) ? MRI_ERROR_BUFFER_OVERRUN : MRI_ERROR_MEMORY_ACCESS_FAILURE);
    return 0;
}
static uint32_t handleMemoryWrite(void) { return memoryWrite(WriteHexBufferToMemory); }
static uint32_t handleBinaryMemoryWrite(void) { return memoryWrite(WriteBinaryBufferToMemory); }

static uint32_t breakWatch(int set)
{
    Buffer*  p = GetBuffer();
    char     type;
    uint32_t address, kind;
    clearExceptionCode();
    type = Buffer_ReadChar(p);
    if (!getExceptionCode()) expectChar(p, ',');
    if (getExceptionCode()) { PrepareStringResponse(MRI_ERROR_INVALID_ARGUMENT); return 0; }
    address = readUInt(p);
    if (!getExceptionCode()) expectChar(p, ',');
    if (getExceptionCode()) { PrepareStringResponse(MRI_ERROR_INVALID_ARGUMENT); return 0; }
    kind = readUInt(p);
    if (getExceptionCode()) { PrepareStringResponse(MRI_ERROR_INVALID_ARGUMENT); return 0; }
    clearExceptionCode();
    switch (type)
    {
    case '1':
        if (set) Platform_SetHardwareBreakpoint(address, kind);
        else Platform_ClearHardwareBreakpoint(address, kind);
        break;
    case '2': case '3': case '4':
        {
            PlatformWatchpointType t = (PlatformWatchpointType)(type - '2');
            if (set) Platform_SetHardwareWatchpoint(address, kind, t);
            else Platform_ClearHardwareWatchpoint(address, kind, t);
            break;
        }
    default:
        PrepareEmptyResponseForUnknownCommand();
        return 0;
    }
    if (getExceptionCode() == invalidArgumentException) PrepareStringResponse(MRI_ERROR_INVALID_ARGUMENT);
    else if (getExceptionCode()) PrepareStringResponse(MRI_ERROR_NO_FREE_BREAKPOINT);
    else PrepareStringResponse("OK");
    return 0;
}
static uint32_t handleBreakSet(void) { return breakWatch(1); }
static uint32_t handleBreakRemove(void) { return breakWatch(0); }

static uint32_t qxferResponse(const char* pData, uint32_t size, const AddressLength* a)
{
    Buffer*  p = GetInitializedBuffer();
    uint32_t length = a->length;
    uint32_t left;
    char     marker = 'm';
    clearExceptionCode();
    left = (uint32_t)Buffer_BytesLeft(p);
    if (length > left) length = left;
    if (a->address >= size)
    {
        marker = 'l';
        length = 0;
    }
    else if (length > size - a->address)
    {
        marker = 'l';
        length = size - a->address;
    }
    if (length == left) length--;           /* Room for the marker. */
    Buffer_WriteChar(p, marker);
    if (length) Buffer_WriteSizedString(p, pData + a->address, length);
    return 0;
}
static uint32_t qxfer(Buffer* p)
{
    static const char memoryMap[] = "memory-map", features[] = "features", read[] = "read", target[] = "target.xml";
    AddressLength     a;
    uint32_t          size;
    int               isMap = 0;
    clearExceptionCode();
    expectChar(p, ':');
    if (getExceptionCode()) { PrepareStringResponse(MRI_ERROR_INVALID_ARGUMENT); return 0; }
    if (Buffer_MatchesString(p, memoryMap, sizeof(memoryMap) - 1)) isMap = 1;
    else if (!Buffer_MatchesString(p, features, sizeof(features) - 1))
    {
        PrepareEmptyResponseForUnknownCommand();
        return 0;
    }
    expectChar(p, ':');
    if (!Buffer_MatchesString(p, read, sizeof(read) - 1)) setExceptionCode(invalidArgumentException);
    expectChar(p, ':');
    if (!isMap && !Buffer_MatchesString(p, target, sizeof(target) - 1)) setExceptionCode(invalidArgumentException);
    expectChar(p, ':');
    if (getExceptionCode() || !readAddressLength(p, &a, 0))
    {
        PrepareStringResponse(MRI_ERROR_INVALID_ARGUMENT);
        return 0;
    }
    size = isMap ? Platform_GetDeviceMemoryMapXmlSize() : Platform_GetTargetXmlSize();
    return qxferResponse(isMap ? Platform_GetDeviceMemoryMapXml() : Platform_GetTargetXml(), size, &a);
}
static uint32_t handleQuery(void)
{
    static const char supported[] = "Supported", xfer[] = "Xfer";
    Buffer*           p = GetBuffer();
    if (Buffer_MatchesString(p, supported, sizeof(supported) - 1))
    {
        uint32_t size = Platform_GetPacketBufferSize();
        p = GetInitializedBuffer();
        Buffer_WriteString(p, "qXfer:memory-map:read+;qXfer:features:read+;PacketSize=");
        Buffer_WriteUIntegerAsHex(p, size);
        return 0;
    }
    if (Buffer_MatchesString(p, xfer, sizeof(xfer) - 1)) return qxfer(p);
    PrepareEmptyResponseForUnknownCommand();
    return 0;
}

/* ---------------------------------------------------------------- core */
void InitBuffer(void)
{
    Buffer_Init(&g_mri.buffer, Platform_GetPacketBuffer(), Platform_GetPacketBufferSize());
}
void PrepareStringResponse(const char* s) { InitBuffer(); Buffer_WriteString(&g_mri.buffer, s); }
int WasSuccessfullyInit(void) { return (int)(g_mri.flags & MRI_FLAGS_SUCCESSFUL_INIT); }
int WasControlCFlagSentFromGdb(void) { return (int)(g_mri.flags & MRI_FLAGS_SEMIHOST_CTRL_C); }
int IsWaitingForGdbToConnect(void) { return Platform_CommIsWaitingForGdbToConnect(); }
void RecordControlCFlagSentFromGdb(int f)
{
    if (f) g_mri.flags |= MRI_FLAGS_SEMIHOST_CTRL_C;
    else g_mri.flags &= ~(uint32_t)MRI_FLAGS_SEMIHOST_CTRL_C;
}
int WasSemihostCallCancelledByGdb(void) { return g_mri.semihostErrno == 4; }
void FlagSemihostCallAsHandled(void) { g_mri.flags |= MRI_FLAGS_SEMIHOST_HANDLED; }
int IsFirstException(void) { return (int)(g_mri.flags & MRI_FLAGS_FIRST_EXCEPTION); }
void SetSignalValue(uint8_t v) { g_mri.signalValue = v; }
uint8_t GetSignalValue(void) { return g_mri.signalValue; }
void SetSemihostReturnValues(int r, int e) { g_mri.semihostReturnCode = r; g_mri.semihostErrno = e; }
int GetSemihostReturnCode(void) { return g_mri.semihostReturnCode; }
int GetSemihostErrno(void) { return g_mri.semihostErrno; }
Buffer* GetBuffer(void) { return &g_mri.buffer; }
Buffer* GetInitializedBuffer(void) { InitBuffer(); return &g_mri.buffer; }
void SendPacketToGdb(void)
{
    if (Buffer_OverrunDetected(&g_mri.buffer)) PrepareStringResponse(MRI_ERROR_BUFFER_OVERRUN);
    Buffer_SetEndOfBuffer(&g_mri.buffer);
    Packet_SendToGDB(&g_mri.packet, &g_mri.buffer);
}

static int handleGDBCommand(void)
{
    static const struct { uint32_t (*handler)(void); char command; } table[] =
    {
        { sendTStop, '?' }, { handleContinue, 'c' }, { handleContinueWithSignal, 'C' }, { handleFileIO, 'F' },
        { handleRegisterRead, 'g' }, { handleRegisterWrite, 'G' }, { handleMemoryRead, 'm' },
        { handleMemoryWrite, 'M' }, { handleQuery, 'q' }, { handleStep, 's' }, { handleStepWithSignal, 'S' },
        { handleBinaryMemoryWrite, 'X' }, { handleBreakRemove, 'z' }, { handleBreakSet, 'Z' }
    };
    uint32_t result = 0;
    size_t   i;
    char     c;

    InitBuffer();
    Packet_GetFromGDB(&g_mri.packet, &g_mri.buffer);
    c = Buffer_ReadChar(&g_mri.buffer);
    for (i = 0 ; i < sizeof(table) / sizeof(table[0]) ; i++)
        if (table[i].command == c) break;
    if (i < sizeof(table) / sizeof(table[0])) result = table[i].handler();
    else PrepareEmptyResponseForUnknownCommand();
    if (!(result & HANDLER_RETURN_RETURN_IMMEDIATELY)) SendPacketToGdb();
    return (int)(result & HANDLER_RETURN_RESUME_PROGRAM);
}
void GdbCommandHandlingLoop(void)
{
    while (!handleGDBCommand())
    {
    }
}

void __mriInit(const char* pDebuggerParameters)
{
    Token tokens;
    memset(&g_mri, 0, sizeof(g_mri));
    clearExceptionCode();
    Token_Init(&tokens);
    Token_SplitString(&tokens, pDebuggerParameters);
    Platform_Init(&tokens);
    g_mri.flags |= MRI_FLAGS_SUCCESSFUL_INIT | MRI_FLAGS_FIRST_EXCEPTION;
}

static void waitForGdb(void)
{
    for (;;)
    {
        while (IsWaitingForGdbToConnect())
        {
        }
        if (Platform_CommReceiveChar() == '+') break;
        Platform_CommWaitForReceiveDataToStop();
        Platform_CommPrepareToWaitForGdbConnection();
    }
}

void __mriDebugException(void)
{
    int waited = IsFirstException() && Platform_CommShouldWaitForGdbConnect();

    if (!Platform_IsSingleStepping() && Platform_CommCausedInterrupt() && !Platform_CommHasReceiveData())
    {
        Platform_CommClearInterrupt();
        return;
    }
    Platform_EnteringDebuggerHook();
    if (waited) waitForGdb();
    Platform_EnteringDebugger();
    g_mri.signalValue = Platform_DetermineCauseOfException();
    if (g_mri.signalValue == SIGTRAP && Semihost_IsDebuggeeMakingSemihostCall() && Semihost_HandleSemihostRequest())
    {
        Platform_LeavingDebugger();
        Platform_LeavingDebuggerHook();
        g_mri.flags &= ~(uint32_t)MRI_FLAGS_FIRST_EXCEPTION;
        return;
    }
    if (!waited)
    {
        Platform_DisplayFaultCauseToGdbConsole();
        sendTStop();
    }
    GdbCommandHandlingLoop();
    Platform_LeavingDebugger();
    Platform_LeavingDebuggerHook();
    g_mri.flags &= ~(uint32_t)MRI_FLAGS_FIRST_EXCEPTION;
}
