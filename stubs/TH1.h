#pragma once
class TH1;
