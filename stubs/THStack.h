#pragma once
class THStack;
